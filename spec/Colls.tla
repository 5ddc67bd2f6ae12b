-------------------------------- MODULE Colls --------------------------------
(* Lists, sets, vecs, arrays and graphs.  As in Blocks, the state is a list   *)
(* of registers and the program that made them, and no step alters a          *)
(* register.  A list is a sequence of values of which some may fail when they *)
(* are looked at; an operation looks only at what its result needs.           *)
(* Infinite lists are specified by a long prefix of them.                     *)
EXTENDS Vals

CONSTANTS NKeys, Steps, Ops, Far        \* Far: how much of an infinite list is made
VARIABLES regs, prog
vars == <<regs, prog>>

Ks == 1..NKeys
Bad == [bad |-> 0]
(* further kinds of value *)
A(sh, d) == [ar |-> [sh |-> sh, d |-> d]]
Vec(q) == [ve |-> q]
Set(q) == [se |-> q]
IsA(v) == Has(v, "ar")  IsVe(v) == Has(v, "ve")  IsSe(v) == Has(v, "se")

----------------------------------------------------------------------------
(* literals *)
RN(z) == N(RandomElement(-3..9))
RAtom(z) == Pick(1..10, LAMBDA c : CASE c <= 6 -> RN(0) [] c <= 8 -> S(<<RandomElement(97..99)>>) [] OTHER -> Y(RandomElement(Ks)))
RAny(z) == Pick(1..10, LAMBDA c : CASE c <= 4 -> RN(0) [] c <= 5 -> S(<<RandomElement(97..99)>>) [] c <= 6 -> Y(RandomElement(Ks))
                                 [] c <= 7 -> L(Pick(0..2, LAMBDA n : Gen(n, LAMBDA i : RN(0)))) [] c <= 8 -> Poison
                                 [] c <= 9 -> B(<< <<RandomElement(Ks), RN(0)>> >>) [] OTHER -> T(TRUE))
Prod(sh) == FoldLeft(LAMBDA a, x : a * x, 1, sh)
RShape(z) == Pick(1..3, LAMBDA n : Gen(n, LAMBDA i : RandomElement(1..3)))
RLit(z) == Pick(1..100, LAMBDA c :
  CASE c <= 46 -> L(Pick(0..7, LAMBDA n : Gen(n, LAMBDA i : RN(0))))
    [] c <= 62 -> L(Pick(0..5, LAMBDA n : Gen(n, LAMBDA i : RAny(0))))
    [] c <= 68 -> L(Pick(0..5, LAMBDA n : Gen(n, LAMBDA i : Y(RandomElement(Ks)))))
    [] c <= 73 -> L(Pick(0..5, LAMBDA n : Gen(n, LAMBDA i : S(Pick(0..2, LAMBDA m : Gen(m, LAMBDA j : RandomElement(97..99)))))))
    [] c <= 80 -> L(Pick(0..4, LAMBDA n : Gen(n, LAMBDA i : T(Chance(60)))))
    [] c <= 88 -> L(Pick(0..4, LAMBDA n : Gen(n, LAMBDA i : L(<<RAtom(0), RAny(0)>>))))
    [] OTHER -> L(Pick(0..4, LAMBDA n : Gen(n, LAMBDA i : L(Pick(0..3, LAMBDA m : Gen(m, LAMBDA j : RN(0))))))))

----------------------------------------------------------------------------
(* functions *)
F(f, v) == CASE f = "ident" -> v
             [] f = "const7" -> N(7)
             [] f = "wrap" -> L(<<v>>)
             [] f = "twin" -> L(<<v, v>>)
             [] IsP(v) -> Poison
             [] f = "inc" -> IF IsN(v) THEN N(v.n + 1) ELSE Bad
             [] f = "dbl" -> IF IsN(v) THEN N(2 * v.n) ELSE Bad
             [] f = "neg" -> IF IsN(v) THEN N(-v.n) ELSE Bad
Fs == {"ident", "const7", "wrap", "twin", "inc", "dbl", "neg"}
NFs == {"inc", "dbl", "neg"}
F2(f, a, b) == CASE f = "pair" -> L(<<a, b>>)
                 [] f = "left" -> a
                 [] f = "right" -> b
                 [] a = Bad \/ b = Bad -> Bad
                 [] IsP(a) \/ IsP(b) -> Poison
                 [] ~IsN(a) \/ ~IsN(b) -> Bad
                 [] f = "add" -> N(a.n + b.n)
                 [] f = "sub" -> N(a.n - b.n)
F2s == {"pair", "left", "right", "add", "sub"}
(* predicates; on what fails all but "any" fail *)
P(p, v) == CASE p = "any" -> TRUE
             [] p = "isn" -> IsN(v)
             [] p = "isl" -> IsL(v)
             [] p = "pos" -> IsN(v) /\ v.n > 0
             [] p = "even" -> IsN(v) /\ v.n % 2 = 0
             [] p = "is3" -> IsN(v) /\ v.n = 3
PNs == {"pos", "even", "is3", "isn", "any"}
PAs == {"any", "isn", "isl", "is3"}
NumsOnly(p) == p \in {"pos", "even"}
(* p may be asked of every element of q *)
Askable(p, q) == p = "any" \/ \A i \in 1..Len(q) : ~IsP(q[i]) /\ (NumsOnly(p) => IsN(q[i]))
Before(p, q) == LET S0 == {i \in 1..Len(q) : ~P(p, q[i])} IN IF S0 = {} THEN Len(q) ELSE (CHOOSE i \in S0 : \A j \in S0 : i <= j) - 1
NoP(q) == \A i \in 1..Len(q) : ~IsP(q[i])
AllN(q) == \A i \in 1..Len(q) : IsN(q[i])
AllL(q) == \A i \in 1..Len(q) : IsL(q[i])
AllClean(q) == \A i \in 1..Len(q) : Clean(q[i])
HasBad(q) == \E i \in 1..Len(q) : q[i] = Bad
ListOf(q) == IF HasBad(q) THEN Bad ELSE L(q)

Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Min2(a, b) == IF a < b THEN a ELSE b
Sum(q) == FoldLeft(LAMBDA a, x : a + x.n, 0, q)
RECURSIVE ScanL(_, _, _), ScanR(_, _, _), Fld(_, _, _), FldR(_, _, _), Win(_, _, _), WinAll(_, _, _), Groups(_, _), Nub(_, _, _), SplitOn(_, _, _), Inter(_, _)
Fld(f, z, q) == IF q = <<>> THEN z ELSE Fld(f, F2(f, z, Head(q)), Tail(q))
FldR(f, z, q) == IF q = <<>> THEN z ELSE F2(f, Head(q), FldR(f, z, Tail(q)))
ScanL(f, z, q) == IF q = <<>> THEN <<z>> ELSE <<z>> \o ScanL(f, F2(f, z, Head(q)), Tail(q))
ScanR(f, z, q) == IF q = <<>> THEN <<z>> ELSE LET s == ScanR(f, z, Tail(q)) IN <<F2(f, Head(q), Head(s))>> \o s
Win(n, s, q) == IF Len(q) < n THEN <<>> ELSE <<Take(n, q)>> \o Win(n, s, Drop(s, q))
WinAll(n, s, q) == IF q = <<>> THEN <<>> ELSE <<Take(n, q)>> \o WinAll(n, s, IF Len(q) <= s THEN <<>> ELSE Drop(s, q))
Inter(a, b) == IF a = <<>> THEN b ELSE <<Head(a)>> \o Inter(b, Tail(a))
(* runs of neighbours with equal keys: q a sequence of <<key, value>> *)
Groups(q, cur) == IF q = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                  ELSE IF cur = <<>> \/ Same(cur[1][1], q[1][1]) THEN Groups(Tail(q), Append(cur, Head(q)))
                  ELSE <<cur>> \o Groups(Tail(q), <<Head(q)>>)
Nub(q, seen, acc) == IF q = <<>> THEN acc
                     ELSE IF \E i \in 1..Len(seen) : Same(seen[i], Head(q)[1]) THEN Nub(Tail(q), seen, acc)
                     ELSE Nub(Tail(q), Append(seen, Head(q)[1]), Append(acc, Head(q)[2]))
SplitOn(p, q, acc) == IF q = <<>> THEN acc
                      ELSE IF P(p, Head(q)) THEN SplitOn(p, Tail(q), Append(acc, <<>>))
                      ELSE SplitOn(p, Tail(q), [acc EXCEPT ![Len(acc)] = Append(@, Head(q))])
(* stable sort of <<key, value>> by integer keys, ascending *)
Insert(e, q, lt(_, _)) == LET n == Cardinality({i \in 1..Len(q) : ~lt(e[1], q[i][1])}) IN Take(n, q) \o <<e>> \o Drop(n, q)
ISort(q, lt(_, _)) == FoldLeft(LAMBDA a, e : Insert(e, a, lt), <<>>, q)
Key(f, v) == CASE f = "ident" -> v.n [] f = "neg" -> -v.n [] f = "par" -> v.n % 2 [] f = "mod3" -> v.n % 3
Keyed(f, q) == [i \in 1..Len(q) |-> <<Key(f, q[i]), q[i]>>]
KFs == {"ident", "neg", "par", "mod3"}
Asc(a, b) == a < b
Desc(a, b) == a > b
Snds(q) == [i \in 1..Len(q) |-> q[i][2]]
Twos(q) == \A i \in 1..Len(q) : IsL(q[i]) /\ Len(q[i].l) = 2
SymKey(f, v) == IF f = "par" THEN (IF v.n % 2 = 0 THEN 1 ELSE 2) ELSE (IF v.n > 3 THEN 3 ELSE 1)
GroupBy(f, q) == FoldLeft(LAMBDA a, v : LET k == SymKey(f, v) IN IF In(a, k) THEN Put(a, k, L(Append(Get(a, k).l, v))) ELSE Append(a, <<k, L(<<v>>)>>), <<>>, q)

(* the order of primitive values in sets: numbers, strings, symbols *)
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF Head(a) = Head(b) THEN LexLt(Tail(a), Tail(b)) ELSE Head(a) < Head(b)
Kind(v) == IF IsN(v) THEN 1 ELSE IF IsS(v) THEN 2 ELSE 3
PrimLt(u, v) == IF Kind(u) /= Kind(v) THEN Kind(u) < Kind(v)
                ELSE CASE IsN(u) -> u.n < v.n [] IsS(u) -> LexLt(u.s, v.s) [] OTHER -> u.y < v.y
Prims(q) == \A i \in 1..Len(q) : IsN(q[i]) \/ IsS(q[i]) \/ IsY(q[i])
Member(v, q) == \E i \in 1..Len(q) : Same(q[i], v)
RECURSIVE Add1(_, _)
Add1(v, q) == IF q = <<>> THEN <<v>> ELSE IF Same(v, Head(q)) THEN q ELSE IF PrimLt(v, Head(q)) THEN <<v>> \o q ELSE <<Head(q)>> \o Add1(v, Tail(q))
SetOf(q) == FoldLeft(LAMBDA a, v : Add1(v, a), <<>>, q)

(* arrays: row-major *)
Off(sh, c) == FoldLeft(LAMBDA a, i : a * sh[i] + c[i], 0, [i \in 1..Len(sh) |-> i])
Coord(sh, k) == [i \in 1..Len(sh) |-> (k \div Prod(SubSeq(sh, i + 1, Len(sh)))) % sh[i]]
Coords(sh) == [k \in 1..Prod(sh) |-> Coord(sh, k - 1)]
Nums(q) == L([i \in 1..Len(q) |-> N(q[i])])
ATrans(a) == A(Rev(a.sh), [k \in 1..Len(a.d) |-> a.d[Off(a.sh, Rev(Coord(Rev(a.sh), k - 1))) + 1]])
ASlice(a, ax, ix) == LET sh2 == SubSeq(a.sh, 1, ax) \o SubSeq(a.sh, ax + 2, Len(a.sh)) IN
   A(sh2, [k \in 1..Prod(sh2) |-> LET c == Coord(sh2, k - 1) IN a.d[Off(a.sh, SubSeq(c, 1, ax) \o <<ix>> \o SubSeq(c, ax + 1, Len(c))) + 1]])
ANeigh(a, c, offs) == Flat([i \in 1..Len(offs) |-> LET d == [j \in 1..Len(c) |-> c[j] + offs[i][j]] IN
                             IF \A j \in 1..Len(c) : d[j] >= 0 /\ d[j] < a.sh[j] THEN <<N(a.d[Off(a.sh, d) + 1])>> ELSE <<>>])
Arith(o, x, y) == CASE o = "arr-add" -> x + y [] o = "arr-sub" -> x - y [] o = "arr-mul" -> x * y

(* graphs: nodes 0..n-1, edges pairs *)
RECURSIVE Reach(_, _), Kahn(_, _, _), Krus(_, _, _, _)
Reach(S0, es) == LET S1 == S0 \union {e[2] : e \in {x \in es : x[1] \in S0}} \union {e[1] : e \in {x \in es : x[2] \in S0}} IN IF S1 = S0 THEN S0 ELSE Reach(S1, es)
(* first in, first out *)
Kahn(queue, indeg, es) ==
  IF queue = <<>> THEN <<>>
  ELSE LET u == Head(queue)
           step == FoldLeft(LAMBDA st, e : IF e[1] /= u THEN st
                                           ELSE LET d == st[2][e[2] + 1] - 1 IN
                                                <<IF d = 0 THEN Append(st[1], e[2]) ELSE st[1], [st[2] EXCEPT ![e[2] + 1] = d]>>,
                            <<Tail(queue), indeg>>, es)
       IN <<u>> \o Kahn(step[1], step[2], es)
Topo(n, es) == LET ind == [i \in 1..n |-> Len(SelectSeq(es, LAMBDA e : e[2] = i - 1))]
               IN Kahn(SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : ind[i + 1] = 0), ind, es)
Krus(n, es, k, comp) == IF k > Len(es) THEN <<>>
   ELSE IF es[k][2] \in Reach({es[k][1]}, {es[j] : j \in 1..(k - 1)}) THEN Krus(n, es, k + 1, comp)
   ELSE <<N(k - 1), N(comp - 1)>> \o Krus(n, es, k + 1, comp - 1)
Comps(n, es) == Nums([i \in 1..n |-> LET r == Reach({i - 1}, ToSet(es)) IN CHOOSE m \in r : \A x \in r : m <= x])

(* infinite lists, by their first elements *)
Base(b, x) == CASE b = "ints" -> [i \in 1..Far |-> N(x + i - 1)]
                [] b = "repeat" -> [i \in 1..Far |-> N(x)]
                [] b = "iterate" -> [i \in 1..Far |-> N(x + 2 * (i - 1))]
                [] b = "cycle" -> [i \in 1..Far |-> N((i - 1) % 3)]
Bases == {"ints", "repeat", "iterate", "cycle"}
Ch(c, q) == CASE c.o = "map" -> [i \in 1..Len(q) |-> F(c.f, q[i])]
              [] c.o = "filter" -> Filter(q, LAMBDA v : P(c.f, v))
              [] c.o = "drop" -> Drop(c.n, q)
              [] c.o = "zipadd" -> [i \in 1..Min2(Len(q), Far) |-> N(q[i].n + i)]
              [] c.o = "scan" -> ScanL("add", N(c.n), Take(24, q))
              [] c.o = "pairs" -> [i \in 1..(Len(q) - 1) |-> N(q[i + 1].n - q[i].n)]
              [] c.o = "cons" -> <<N(c.n)>> \o q
              [] c.o = "twice" -> Flat([i \in 1..Len(q) |-> <<q[i], q[i]>>])
              [] c.o = "inter" -> Flat([i \in 1..Len(q) |-> <<q[i], N(c.n)>>])
Chs == {"map", "filter", "drop", "zipadd", "scan", "pairs", "cons", "twice", "inter"}
RChain(z) == Pick(0..3, LAMBDA n : Gen(n, LAMBDA i : Pick(Chs, LAMBDA o : [o |-> o, f |-> IF o = "filter" THEN RandomElement({"pos", "even"}) ELSE RandomElement(NFs), n |-> RandomElement(0..4)])))

----------------------------------------------------------------------------
(* steps *)
RegsOf(Q(_)) == {i \in 1..Len(regs) : Q(regs[i])}
R(i) == [r |-> i]
V(v) == [v |-> v]
Nm(n) == [v |-> N(n)]
Fn(f) == [f |-> f]
LV(q) == [v |-> L(q)]
NV(q) == [v |-> Nums(q)]
Put1(op, args, v) == regs' = Append(regs, v) /\ prog' = Append(prog, [o |-> op, a |-> args])
Lit == \E v \in {RLit(0)} : Put1("lit", <<V(v)>>, v)
Out(op, args, v) == IF v = Bad THEN Lit ELSE IF Size(v) > 40 THEN Lit ELSE Put1(op, args, v)
(* one register of those in X, or a literal instead *)
On(X, Act(_)) == IF X = {} THEN Lit ELSE \E i \in {RandomElement(X)} : Act(i)

Lists == RegsOf(IsL)
NLists == RegsOf(LAMBDA v : IsL(v) /\ AllN(v.l))
CLists == RegsOf(LAMBDA v : IsL(v) /\ Clean(v))
LLists == RegsOf(LAMBDA v : IsL(v) /\ v.l /= <<>> /\ AllL(v.l))
TwoLists == RegsOf(LAMBDA v : IsL(v) /\ v.l /= <<>> /\ Twos(v.l))
TLists == RegsOf(LAMBDA v : IsL(v) /\ \A i \in 1..Len(v.l) : IsT(v.l[i]))
PrimLists == RegsOf(LAMBDA v : IsL(v) /\ Prims(v.l))
OrdLists == RegsOf(LAMBDA v : IsL(v) /\ ((\A i \in 1..Len(v.l) : IsS(v.l[i])) \/ \A i \in 1..Len(v.l) : IsY(v.l[i])))
Arrs == RegsOf(IsA)
Vecs == RegsOf(IsVe)
Sets == RegsOf(IsSe)
RCoord(sh) == Gen(Len(sh), LAMBDA i : RandomElement(0..(sh[i] - 1)))

ListOp(op) == On(Lists, LAMBDA i : LET q == regs[i].l  n0 == Len(q) IN
  \E n \in {RandomElement(0..(n0 + 1))}, m \in {RandomElement(0..n0)}, v \in {RAny(0)}, f \in {RandomElement(Fs)}, p \in {RandomElement(IF AllN(q) THEN PNs ELSE PAs)},
     j \in {RandomElement(Lists)}, f2 \in {RandomElement(F2s)} : LET r == regs[j].l IN
  CASE op = "take" -> Out(op, <<Nm(n), R(i)>>, L(Take(n, q)))
    [] op = "drop" -> Out(op, <<Nm(m), R(i)>>, L(Drop(m, q)))
    [] op = "rotate" -> Out(op, <<Nm(m), R(i)>>, L(Drop(m, q) \o Take(m, q)))
    [] op = "split-at" -> Out(op, <<Nm(n), R(i)>>, L(<<L(Take(n, q)), L(Drop(n, q))>>))
    [] op \in {"take-while", "drop-while", "split-after"} -> LET b == Before(p, q) IN
         IF ~Askable(p, Take(b + 1, q)) THEN Lit
         ELSE Out(op, <<Fn(p), R(i)>>, CASE op = "take-while" -> L(Take(b, q)) [] op = "drop-while" -> L(Drop(b, q)) [] OTHER -> L(<<L(Take(b, q)), L(Drop(b, q))>>))
    [] op = "nth" -> Out(op, <<Nm(m), R(i)>>, IF m < n0 THEN q[m + 1] ELSE Bad)
    [] op = "head" -> Out(op, <<R(i)>>, IF n0 > 0 THEN q[1] ELSE Bad)
    [] op = "head-or" -> Out(op, <<V(v), R(i)>>, IF n0 > 0 THEN q[1] ELSE v)
    [] op = "last" -> Out(op, <<R(i)>>, IF n0 > 0 THEN q[n0] ELSE Bad)
    [] op = "second" -> Out(op, <<R(i)>>, IF n0 > 1 THEN q[2] ELSE Bad)
    [] op = "second-or" -> Out(op, <<V(v), R(i)>>, IF n0 > 1 THEN q[2] ELSE v)
    [] op = "tail" -> Out(op, <<R(i)>>, IF n0 > 0 THEN L(Tail(q)) ELSE Bad)
    [] op = "tail-or" -> Out(op, <<R(j), R(i)>>, IF n0 > 0 THEN L(Tail(q)) ELSE L(r))
    [] op = "butlast" -> Out(op, <<R(i)>>, IF n0 > 0 THEN L(SubSeq(q, 1, n0 - 1)) ELSE Bad)
    [] op = "cons" -> \E k \in {RandomElement(1..Len(regs))} : IF IsA(regs[k]) \/ IsVe(regs[k]) \/ IsSe(regs[k]) THEN Lit ELSE Out(op, <<R(k), R(i)>>, L(<<regs[k]>> \o q))
    [] op = "snoc" -> Out(op, <<V(v), R(i)>>, L(Append(q, v)))
    [] op = "update-nth" -> Out(op, <<Nm(m), Fn(f), R(i)>>, IF m < n0 THEN LET w == F(f, q[m + 1]) IN IF w = Bad THEN Bad ELSE L([q EXCEPT ![m + 1] = w]) ELSE Bad)
    [] op = "update-first" -> LET b == Before("none", q) IN
         LET hit == {x \in 1..n0 : P(p, q[x])} IN LET x0 == IF hit = {} THEN n0 + 1 ELSE CHOOSE x \in hit : \A y \in hit : x <= y IN
           IF ~Askable(p, Take(x0, q)) THEN Lit
           ELSE Out(op, <<Fn(p), Fn(f), R(i)>>, IF x0 > n0 THEN L(q) ELSE LET w == F(f, q[x0]) IN IF w = Bad THEN Bad ELSE L([q EXCEPT ![x0] = w]))
    [] op = "tails" -> Out(op, <<R(i)>>, L([x \in 1..n0 |-> L(SubSeq(q, x, n0))]))
    [] op = "count" -> Out(op, <<R(i)>>, N(n0))
    [] op = "nil?" -> Out(op, <<R(i)>>, T(n0 = 0))
    [] op = "map" -> Out(op, <<Fn(f), R(i)>>, ListOf([x \in 1..n0 |-> F(f, q[x])]))
    [] op = "mapcat" -> Out(op, <<R(i)>>, L(Flat([x \in 1..n0 |-> <<q[x], q[x]>>])))
    [] op = "map2" -> Out(op, <<Fn(f2), R(i), R(j)>>, ListOf([x \in 1..Min2(n0, Len(r)) |-> F2(f2, q[x], r[x])]))
    [] op = "zip" -> Out(op, <<R(i), R(j)>>, L([x \in 1..Min2(n0, Len(r)) |-> L(<<q[x], r[x]>>)]))
    [] op = "interleave" -> Out(op, <<R(i), R(j)>>, L(Inter(q, r)))
    [] op = "cross" -> Out(op, <<Fn(f2), R(i), R(j)>>, ListOf(Flat([x \in 1..n0 |-> [y \in 1..Len(r) |-> F2(f2, q[x], r[y])]])))
    [] op = "append" -> Out(op, <<R(i), R(j)>>, L(q \o r))
    [] op = "concat" -> Out(op, <<R(i), R(j)>>, L(q \o r \o q))
    [] op = "reverse" -> Out(op, <<R(i)>>, L(Rev(q)))
    [] op \in {"filter", "remove", "discriminate", "split-on"} -> IF ~Askable(p, q) THEN Lit ELSE
         LET yes == Filter(q, LAMBDA x : P(p, x))  no == Filter(q, LAMBDA x : ~P(p, x)) IN
         Out(op, <<Fn(p), R(i)>>, CASE op = "filter" -> L(yes) [] op = "remove" -> L(no) [] op = "discriminate" -> L(<<L(yes), L(no)>>)
                                    [] OTHER -> L(Map(L, SplitOn(p, q, << <<>> >>))))
    [] op = "all" -> IF ~Askable(p, q) THEN Lit ELSE Out(op, <<Fn(p), R(i)>>, T(\A x \in 1..n0 : P(p, q[x])))
    [] op = "any" -> LET hit == {x \in 1..n0 : P(p, q[x])} IN LET x0 == IF hit = {} THEN n0 ELSE CHOOSE x \in hit : \A y \in hit : x <= y IN
           IF ~Askable(p, Take(x0, q)) THEN Lit ELSE Out(op, <<Fn(p), R(i)>>, T(hit /= {}))
    [] op \in {"window", "window-all"} -> \E a \in {RandomElement(1..3)}, s \in {RandomElement(1..3)} :
           IF s > a THEN Lit ELSE Out(op, <<Nm(a), Nm(s), R(i)>>, L(Map(L, IF op = "window" THEN Win(a, s, q) ELSE WinAll(a, s, q))))
    [] op \in {"partition", "partition-all"} -> \E a \in {RandomElement(1..3)} : Out(op, <<Nm(a), R(i)>>, L(Map(L, IF op = "partition" THEN Win(a, a, q) ELSE WinAll(a, a, q))))
    [] op = "sliding" -> Out(op, <<Fn(f2), R(i)>>, ListOf([x \in 1..(IF n0 = 0 THEN 0 ELSE n0 - 1) |-> F2(f2, q[x], q[x + 1])]))
    [] op = "foldl" -> Out(op, <<Fn(f2), V(v), R(i)>>, Fld(f2, v, q))
    [] op = "foldr" -> Out(op, <<Fn(f2), V(v), R(i)>>, FldR(f2, v, q))
    [] op = "reduce" -> Out(op, <<Fn(f2), R(i)>>, IF n0 = 0 THEN Bad ELSE Fld(f2, q[1], Tail(q)))
    [] op = "scanl" -> Out(op, <<Fn(f2), V(v), R(i)>>, ListOf(ScanL(f2, v, q)))
    [] op = "scanr" -> Out(op, <<Fn(f2), V(v), R(i)>>, ListOf(ScanR(f2, v, q)))
    [] op = "zip-apply" -> \E fs \in {Gen(3, LAMBDA x : RandomElement(Fs))} : LET k == Min2(3, n0) IN
           Out(op, <<Fn(fs[1]), Fn(fs[2]), Fn(fs[3]), R(i)>>, ListOf([x \in 1..k |-> F(fs[x], q[x])]))
    [] op = "for-pair" -> Out(op, <<R(i), R(j)>>, L(Flat([x \in 1..n0 |-> [y \in 1..Len(r) |-> L(<<r[y], q[x]>>)]])))
    [] op = "for-if" -> IF ~Askable(p, q) THEN Lit ELSE Out(op, <<Fn(p), Fn(f), R(i)>>, ListOf(Map(LAMBDA x : F(f, x), Filter(q, LAMBDA x : P(p, x)))))
    [] op = "coalesce" -> LET hit == {x \in 1..n0 : ~IsZ(q[x])} IN LET x0 == IF hit = {} THEN n0 + 1 ELSE CHOOSE x \in hit : \A y \in hit : x <= y IN
           Out(op, <<R(i)>>, IF ~NoP(Take(x0, q)) THEN Bad ELSE IF x0 > n0 THEN Null ELSE q[x0]))

NumOp(op) == On(NLists, LAMBDA i : LET q == regs[i].l  n0 == Len(q)  xs == {q[x].n : x \in 1..n0} IN
  \E k \in {RandomElement(KFs)}, nf \in {RandomElement(NFs)}, p \in {RandomElement(PNs)} :
  CASE op = "sum" -> Out(op, <<R(i)>>, N(Sum(q)))
    [] op = "max-of" -> Out(op, <<R(i)>>, IF n0 = 0 THEN Bad ELSE N(CHOOSE x \in xs : \A y \in xs : x >= y))
    [] op = "min-of" -> Out(op, <<R(i)>>, IF n0 = 0 THEN Bad ELSE N(CHOOSE x \in xs : \A y \in xs : x <= y))
    [] op = "max-by" -> Out(op, <<Fn(k), R(i)>>, IF n0 = 0 THEN Bad ELSE LET s == ISort(Keyed(k, q), Desc) IN s[1][2])
    [] op = "min-by" -> Out(op, <<Fn(k), R(i)>>, IF n0 = 0 THEN Bad ELSE LET s == ISort(Keyed(k, q), Asc) IN s[1][2])
    [] op = "sort-nums" -> Out(op, <<R(i)>>, L(Snds(ISort(Keyed("ident", q), Asc))))
    [] op = "sort-by" -> Out(op, <<Fn(k), R(i)>>, L(Snds(ISort(Keyed(k, q), Asc))))
    [] op = "sort-desc" -> Out(op, <<Fn(k), R(i)>>, L(Snds(ISort(Keyed(k, q), Desc))))
    [] op = "running-max" -> Out(op, <<R(i)>>, L([x \in 1..n0 |-> N(CHOOSE m \in {q[y].n : y \in 1..x} : \A y \in 1..x : m >= q[y].n)]))
    [] op = "running-min" -> Out(op, <<R(i)>>, L([x \in 1..n0 |-> N(CHOOSE m \in {q[y].n : y \in 1..x} : \A y \in 1..x : m <= q[y].n)]))
    [] op = "running-sum" -> Out(op, <<R(i)>>, L([x \in 1..n0 |-> N(Sum(SubSeq(q, 1, x)))]))
    [] op = "differences" -> Out(op, <<R(i)>>, L([x \in 1..(IF n0 = 0 THEN 0 ELSE n0 - 1) |-> N(q[x + 1].n - q[x].n)]))
    [] op = "group-by" -> \E g \in {RandomElement({"par", "big"})} : Out(op, <<Fn("k" \o g), R(i)>>, B(GroupBy(g, q)))
    [] op = "range" -> \E a \in {RandomElement(-3..4)}, m \in {RandomElement(0..5)} : Out(op, <<Nm(a), Nm(a + m)>>, L([x \in 1..m |-> N(a + x - 1)]))
    [] op = "nub-by" -> Out(op, <<Fn(k), R(i)>>, L(Nub([x \in 1..n0 |-> <<N(Key(k, q[x])), q[x]>>], <<>>, <<>>)))
    [] op = "group-by-run" -> Out(op, <<Fn(k), R(i)>>, L(Map(LAMBDA g : L(Snds(g)), Groups([x \in 1..n0 |-> <<N(Key(k, q[x])), q[x]>>], <<>>))))
    [] op = "inf" -> \E b \in {RandomElement(Bases)}, x \in {RandomElement(-2..3)}, ch \in {RChain(0)}, t \in {RandomElement(0..6)} :
         LET r == FoldLeft(LAMBDA a, c : Ch(c, a), Base(b, x), ch) IN
           IF Len(r) < t + 3 THEN Lit ELSE Out(op, <<[base |-> b, x |-> x], [ch |-> ch], Nm(t)>>, L(Take(t, r)))
    \* a list whose tail fails after m elements: what comes before can be had
    [] op = "inf-broken" -> \E x \in {RandomElement(-2..3)}, m \in {RandomElement(0..5)}, ch \in {SelectSeq(RChain(0), LAMBDA c : c.o \notin {"scan", "pairs"})} :
         LET r == FoldLeft(LAMBDA a, c : Ch(c, a), [y \in 1..m |-> N(x + y)], ch) IN \E t \in {IF Chance(70) THEN Len(r) ELSE RandomElement(0..Len(r))} :
           IF t > 12 THEN Lit ELSE Out(op, <<[base |-> "broken", x |-> x, m |-> m], [ch |-> ch], Nm(t)>>, L(Take(t, r)))
    [] op = "inf-zip" -> \E b \in {RandomElement(Bases)}, x \in {RandomElement(-2..3)}, ch \in {RChain(0)} :
         LET r == FoldLeft(LAMBDA a, c : Ch(c, a), Base(b, x), ch) IN
           IF Len(r) < n0 + 3 THEN Lit ELSE Out(op, <<[base |-> b, x |-> x], [ch |-> ch], R(i)>>, L([y \in 1..n0 |-> L(<<r[y], q[y]>>)]))
    [] op = "inf-find" -> \E b \in {RandomElement(Bases)}, x \in {RandomElement(-2..3)}, ch \in {RChain(0)} :
         LET r == FoldLeft(LAMBDA a, c : Ch(c, a), Base(b, x), ch)  h == {y \in 1..Len(r) : r[y].n > 5} IN
           IF h = {} \/ Len(r) < 12 THEN Lit ELSE LET y0 == CHOOSE y \in h : \A z \in h : y <= z IN IF y0 > 10 THEN Lit
           ELSE Out(op, <<[base |-> b, x |-> x], [ch |-> ch]>>, L(<<r[y0], L(Take(y0 - 1, r)), T(TRUE)>>))
    [] op = "arr-make" -> \E sh \in {RShape(0)} : \E d \in {Gen(Prod(sh), LAMBDA x : RandomElement(-3..9))} : Out(op, <<NV(sh), NV(d)>>, A(sh, d))
    [] op = "arr-fill" -> \E sh \in {RShape(0)}, v \in {RandomElement(0..3)} : Out(op, <<NV(sh), Nm(v)>>, A(sh, [x \in 1..Prod(sh) |-> v]))
    [] op \in {"union-find", "topo", "kruskal"} -> \E n \in {RandomElement(1..5)}, m \in {RandomElement(0..6)} :
         \E es \in {Gen(m, LAMBDA x : <<RandomElement(0..(n - 1)), RandomElement(0..(n - 1))>>)} :
         \* for an order to exist half of the time edges go upwards
         \E up \in {Chance(60)} : LET es2 == IF up THEN SelectSeq(es, LAMBDA e : e[1] < e[2]) ELSE es IN
           Out(op, <<Nm(n), LV(Map(LAMBDA e : Nums(e), es2))>>, CASE op = "topo" -> Nums(Topo(n, es2)) [] op = "kruskal" -> L(Krus(n, es2, 1, n)) [] OTHER -> Comps(n, es2)))

MiscOp(op) ==
  CASE op = "transpose" -> On(RegsOf(LAMBDA v : IsL(v) /\ v.l /= <<>> /\ AllL(v.l) /\ \A i \in 1..Len(v.l) : Len(v.l[i].l) = Len(v.l[1].l)), LAMBDA i : LET q == regs[i].l IN
           Out(op, <<R(i)>>, L([c \in 1..Len(q[1].l) |-> L([r \in 1..Len(q) |-> q[r].l[c]])])))
    [] op = "flat" -> On(LLists, LAMBDA i : Out(op, <<R(i)>>, L(Flat([x \in 1..Len(regs[i].l) |-> regs[i].l[x].l]))))
    [] op = "unzip" -> On(TwoLists, LAMBDA i : LET q == regs[i].l IN Out(op, <<R(i)>>, L(<<L([x \in 1..Len(q) |-> q[x].l[1]]), L([x \in 1..Len(q) |-> q[x].l[2]])>>)))
    [] op \in {"map-first", "map-second", "bimap"} -> On(TwoLists, LAMBDA i : \E f \in {RandomElement(Fs)}, g \in {RandomElement(Fs)} : LET q == regs[i].l IN
           LET r == [x \in 1..Len(q) |-> LET a == IF op = "map-second" THEN q[x].l[1] ELSE F(f, q[x].l[1])  b == IF op = "map-first" THEN q[x].l[2] ELSE F(IF op = "bimap" THEN g ELSE f, q[x].l[2])
                                          IN IF a = Bad \/ b = Bad THEN Bad ELSE L(<<a, b>>)] IN
           Out(op, IF op = "bimap" THEN <<Fn(f), Fn(g), R(i)>> ELSE <<Fn(f), R(i)>>, ListOf(r)))
    [] op = "all-true" -> On(TLists, LAMBDA i : Out(op, <<R(i)>>, T(\A x \in 1..Len(regs[i].l) : regs[i].l[x].t)))
    [] op = "any-true" -> On(TLists, LAMBDA i : Out(op, <<R(i)>>, T(\E x \in 1..Len(regs[i].l) : regs[i].l[x].t)))
    [] op = "runs" -> On(CLists, LAMBDA i : LET q == regs[i].l IN Out(op, <<R(i)>>, L(Map(LAMBDA g : L(Snds(g)), Groups([x \in 1..Len(q) |-> <<q[x], q[x]>>], <<>>)))))
    [] op = "uniq" -> On(CLists, LAMBDA i : LET q == regs[i].l IN Out(op, <<R(i)>>, L(Map(LAMBDA g : g[1][2], Groups([x \in 1..Len(q) |-> <<q[x], q[x]>>], <<>>)))))
    [] op = "nub" -> On(CLists, LAMBDA i : LET q == regs[i].l IN Out(op, <<R(i)>>, L(Nub([x \in 1..Len(q) |-> <<q[x], q[x]>>], <<>>, <<>>))))
    [] op = "equal" -> On(CLists, LAMBDA i : \E j \in {RandomElement(CLists)} : Out(op, <<R(i), R(j)>>, T(Same(regs[i], regs[j]))))
    [] op = "sort-strs" -> On(OrdLists, LAMBDA i : LET q == regs[i].l IN Out(op, <<R(i)>>, L(Snds(ISort([x \in 1..Len(q) |-> <<q[x], q[x]>>], PrimLt)))))
    [] op = "set-of" -> On(PrimLists, LAMBDA i : Out(op, <<R(i)>>, Set(SetOf(regs[i].l))))
    [] op = "vec-of" -> On(PrimLists, LAMBDA i : Out(op, <<R(i)>>, Vec(regs[i].l)))

SetOp(op) == On(Sets, LAMBDA i : LET q == regs[i].se IN \E v \in {IF q /= <<>> /\ Chance(60) THEN q[RandomElement(1..Len(q))] ELSE RAtom(0)}, j \in {RandomElement(Sets)} : LET r == regs[j].se IN
  CASE op = "set-add" -> Out(op, <<V(v), R(i)>>, Set(Add1(v, q)))
    [] op = "set-remove" -> Out(op, <<V(v), R(i)>>, Set(Filter(q, LAMBDA x : ~Same(x, v))))
    [] op = "set-has" -> Out(op, <<V(v), R(i)>>, T(Member(v, q)))
    [] op = "set-size" -> Out(op, <<R(i)>>, N(Len(q)))
    [] op = "set-empty" -> Out(op, <<R(i)>>, T(q = <<>>))
    [] op = "set-union" -> Out(op, <<R(i), R(j)>>, Set(SetOf(q \o r)))
    [] op = "set-intersect" -> Out(op, <<R(i), R(j)>>, Set(Filter(q, LAMBDA x : Member(x, r))))
    [] op = "set-diff" -> Out(op, <<R(i), R(j)>>, Set(Filter(q, LAMBDA x : ~Member(x, r))))
    [] op = "set-list" -> Out(op, <<R(i)>>, L(q)))
VecOp(op) == On(Vecs, LAMBDA i : LET q == regs[i].ve IN
  CASE op = "vec-len" -> Out(op, <<R(i)>>, N(Len(q)))
    [] op = "vec-nth" -> IF q = <<>> THEN Lit ELSE \E n \in {RandomElement(0..(Len(q) - 1))} : Out(op, <<Nm(n), R(i)>>, q[n + 1])
    [] op = "vec-slice" -> \E a \in {RandomElement(0..Len(q))} : \E b \in {RandomElement(a..Len(q))} : Out(op, <<Nm(a), Nm(b), R(i)>>, Vec(SubSeq(q, a + 1, b)))
    [] op = "vec-list" -> Out(op, <<R(i)>>, L(q)))
ArrOp(op) == On(Arrs, LAMBDA i : LET a == regs[i].ar IN
  \E c \in {RCoord(a.sh)}, x \in {RandomElement(-3..9)}, nf \in {RandomElement(NFs)}, j \in {RandomElement(Arrs)} : LET b == regs[j].ar IN
  CASE op = "arr-get" -> Out(op, <<NV(c), R(i)>>, N(a.d[Off(a.sh, c) + 1]))
    [] op = "arr-set" -> Out(op, <<NV(c), Nm(x), R(i)>>, A(a.sh, [a.d EXCEPT ![Off(a.sh, c) + 1] = x]))
    [] op = "arr-shape" -> Out(op, <<R(i)>>, Nums(a.sh))
    [] op = "arr-rank" -> Out(op, <<R(i)>>, N(Len(a.sh)))
    [] op = "arr-length" -> Out(op, <<R(i)>>, N(Len(a.d)))
    [] op = "arr-list" -> Out(op, <<R(i)>>, Nums(a.d))
    [] op = "arr-transpose" -> Out(op, <<R(i)>>, ATrans(a))
    [] op = "arr-reshape" -> \E s \in {RandomElement({Rev(a.sh), <<Prod(a.sh)>>, <<1, Prod(a.sh)>>, <<Prod(a.sh), 1>>})} : Out(op, <<NV(s), R(i)>>, A(s, a.d))
    [] op = "arr-slice" -> \E ax \in {RandomElement(0..(Len(a.sh) - 1))} : \E ix \in {RandomElement(0..(a.sh[ax + 1] - 1))} :
          IF Len(a.sh) = 1 THEN Lit ELSE Out(op, <<Nm(ax), Nm(ix), R(i)>>, ASlice(a, ax, ix))
    [] op \in {"arr-add", "arr-sub", "arr-mul"} ->
          IF a.sh = b.sh THEN Out(op, <<R(i), R(j)>>, A(a.sh, [k \in 1..Len(a.d) |-> Arith(op, a.d[k], b.d[k])]))
          ELSE Out(op, <<R(i), Nm(x)>>, A(a.sh, [k \in 1..Len(a.d) |-> Arith(op, a.d[k], x)]))
    [] op = "arr-indices" -> Out(op, <<R(i)>>, L(Map(Nums, Coords(a.sh))))
    [] op = "arr-map" -> Out(op, <<Fn(nf), R(i)>>, A(a.sh, [k \in 1..Len(a.d) |-> F(nf, N(a.d[k])).n]))
    [] op = "arr-map-indexed" -> Out(op, <<R(i)>>, A(a.sh, [k \in 1..Len(a.d) |-> a.d[k] + 10 * FoldLeft(LAMBDA s, y : 2 * s + y, 0, Coord(a.sh, k - 1))]))
    [] op = "arr-fold" -> \E f \in {RandomElement({"add", "sub"})} : Out(op, <<Fn(f), Nm(x), R(i)>>, Fld(f, N(x), [k \in 1..Len(a.d) |-> N(a.d[k])]))
    [] op = "arr-neighbours" -> \E n \in {RandomElement(0..4)} : \E offs \in {Gen(n, LAMBDA z : Gen(Len(a.sh), LAMBDA y : RandomElement(-1..1)))} :
          Out(op, <<NV(c), LV(Map(Nums, offs)), R(i)>>, L(ANeigh(a, c, offs)))
    [] op = "unit-arrays" -> IF Prod(a.sh) > 4 THEN Lit ELSE Out(op, <<NV(a.sh)>>, L([k \in 1..Prod(a.sh) |-> Nums([m \in 1..Prod(a.sh) |-> IF m = k THEN 1 ELSE 0])]))
    [] op = "arr-is" -> \E k \in {RandomElement(1..Len(regs))} : IF IsP(regs[k]) THEN Lit ELSE Out(op, <<R(k)>>, T(IsA(regs[k]))))

NumOps == {"sum", "max-of", "min-of", "max-by", "min-by", "sort-nums", "sort-by", "sort-desc", "running-max", "running-min", "running-sum", "differences", "group-by",
           "range", "nub-by", "group-by-run", "inf", "inf-broken", "inf-zip", "inf-find", "arr-make", "arr-fill", "union-find", "topo", "kruskal"}
MiscOps == {"transpose", "flat", "unzip", "map-first", "map-second", "bimap", "all-true", "any-true", "runs", "uniq", "nub", "equal", "sort-strs", "set-of", "vec-of"}
SetOps == {"set-add", "set-remove", "set-has", "set-size", "set-empty", "set-union", "set-intersect", "set-diff", "set-list"}
VecOps == {"vec-len", "vec-nth", "vec-slice", "vec-list"}
ArrOps == {"arr-get", "arr-set", "arr-shape", "arr-rank", "arr-length", "arr-list", "arr-transpose", "arr-reshape", "arr-slice", "arr-add", "arr-sub", "arr-mul", "arr-indices",
           "arr-map", "arr-map-indexed", "arr-fold", "arr-neighbours", "unit-arrays", "arr-is"}
Step(op) == CASE op \in NumOps -> NumOp(op) [] op \in MiscOps -> MiscOp(op) [] op \in SetOps -> SetOp(op) [] op \in VecOps -> VecOp(op) [] op \in ArrOps -> ArrOp(op)
              [] op = "lit" -> Lit [] OTHER -> ListOp(op)

Init == regs = <<>> /\ prog = <<>>
(* collections other than lists are made early so that later steps find them *)
Start == LET k == RandomElement(1..10) IN IF k <= 6 THEN Lit ELSE \E op \in {RandomElement(({"arr-make", "set-of", "vec-of"} \intersect Ops) \union {"lit"})} : Step(op)
Next == /\ Len(regs) < Steps
        /\ IF Len(regs) < 2 THEN Lit ELSE IF Len(regs) = 2 THEN Start ELSE \E op \in {RandomElement(Ops)} : Step(op)
Spec == Init /\ [][Next]_vars

Persistent == [][\A i \in 1..Len(regs) : regs'[i] = regs[i]]_vars
(* laws of the specification itself, on every list that arises *)
Laws == \A i \in Lists : LET q == regs[i].l IN
  /\ Rev(Rev(q)) = q
  /\ \A n \in 0..Len(q) : Take(n, q) \o Drop(n, q) = q
  /\ Flat(WinAll(2, 2, q)) = q
  /\ Len(Inter(q, Rev(q))) = 2 * Len(q)
  /\ \A n \in 1..Len(q) : Take(n, ScanL("left", Null, q)) = [x \in 1..n |-> Null]
ALaws == \A i \in Arrs : LET a == regs[i].ar IN
  /\ Len(a.d) = Prod(a.sh)
  /\ \A k \in 1..Len(a.d) : Off(a.sh, Coord(a.sh, k - 1)) = k - 1
  /\ ATrans(ATrans(a).ar) = regs[i]
SLaws == \A i \in Sets : LET q == regs[i].se IN \A x, y \in 1..Len(q) : x < y => PrimLt(q[x], q[y])

Emit == Len(regs) = Steps =>
  PrintT("@@" \o ToJson([p |-> prog, v |-> regs, c |-> [i \in 1..Len(regs) |-> Clean(regs[i])]]))
=============================================================================
