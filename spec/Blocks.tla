------------------------------- MODULE Blocks -------------------------------
(* Ordered blocks.  The state is a list of registers holding values and the   *)
(* program that made them; a step applies one operation of the language to    *)
(* registers already made, or writes a literal.  No step alters a register:   *)
(* blocks are persistent.  What each operation gives is defined here by the   *)
(* ordered-block semantics of the documentation: a key keeps its place, a new *)
(* key goes to the end, the right operand of a merge prevails.                *)
EXTENDS Vals

CONSTANTS NKeys, Steps, Ops

VARIABLES regs, prog
vars == <<regs, prog>>

Ks == 1..NKeys

----------------------------------------------------------------------------
(* literals *)
Keys0(n) == Shuffle(Ks, n)

RECURSIVE RVal(_)
RVal(d) == Pick(1..100, LAMBDA c :
  CASE c <= 45 \/ (d = 0 /\ c <= 80) -> N(RandomElement(0..9))
    [] c <= 52 -> S(<<RandomElement(97..99)>>)
    [] c <= 58 \/ d = 0 -> Y(RandomElement(Ks))
    [] c <= 68 -> L(Pick(0..3, LAMBDA n : Gen(n, LAMBDA i : RVal(d - 1))))
    [] c <= 70 -> Poison
    [] OTHER -> B(Pick(0..(IF NKeys < 4 THEN NKeys ELSE 4), LAMBDA n : Pick({Keys0(n)}, LAMBDA ks : [i \in 1..n |-> Pick({<<ks[i], i>>}, LAMBDA z : <<ks[i], RVal(d - 1)>>)]))))
RBlock(d) == B(Pick(0..(IF NKeys < 5 THEN NKeys ELSE 5), LAMBDA n : Pick({Keys0(n)}, LAMBDA ks : [i \in 1..n |-> Pick({<<ks[i], i>>}, LAMBDA z : <<ks[i], RVal(d - 1)>>)])))

----------------------------------------------------------------------------
(* functions the higher-order operations are given *)
F(f, v) == CASE f = "const7" -> N(7)
             [] f = "wrap" -> L(<<v>>)
             [] f = "box" -> B(<< <<1, v>> >>)
             [] f = "isblk" -> IF IsP(v) THEN Poison ELSE T(IsB(v))
             [] f = "ident" -> v
Fs == {"const7", "wrap", "box", "isblk", "ident"}
(* predicates on keys *)
KP(p, k) == CASE p = "lo" -> k <= NKeys \div 2 [] p = "hi" -> k > NKeys \div 2 [] p = "one" -> k = 1
KPs == {"lo", "hi", "one"}
(* predicates on values *)
VP(p, v) == CASE p = "num" -> IsN(v) [] p = "blk" -> IsB(v) [] p = "any" -> TRUE
VPs == {"num", "blk", "any"}
HasPoison(b) == \E i \in 1..Len(b) : IsP(b[i][2])

Pairs(b) == L([i \in 1..Len(b) |-> L(<<Y(b[i][1]), b[i][2]>>)])
Upd(b, k, f) == [i \in 1..Len(b) |-> IF b[i][1] = k THEN <<k, F(f, b[i][2])>> ELSE b[i]]
UpdOr(b, k, f, d) == IF In(b, k) THEN Upd(b, k, f) ELSE Append(b, <<k, d>>)
RECURSIVE AlterTo(_, _, _), Alter(_, _, _), Tongue(_, _), MergeAt(_, _, _, _), PathVal(_, _)
Bad == [bad |-> 0]                      \* the operation is not defined here: not used
Alter(v, ks, f) == IF ks = <<>> THEN F(f, v)
                   ELSE IF ~IsB(v) THEN Bad
                   ELSE IF ~In(v.b, Head(ks)) THEN v
                   ELSE LET w == Alter(Get(v.b, Head(ks)), Tail(ks), f)
                        IN IF w = Bad THEN Bad ELSE B(Put(v.b, Head(ks), w))
AlterTo(v, ks, d) == IF ks = <<>> THEN d
                   ELSE IF ~IsB(v) THEN Bad
                   ELSE IF ~In(v.b, Head(ks)) THEN v
                   ELSE LET w == AlterTo(Get(v.b, Head(ks)), Tail(ks), d)
                        IN IF w = Bad THEN Bad ELSE B(Put(v.b, Head(ks), w))
Tongue(ks, v) == IF ks = <<>> THEN v ELSE B(<< <<Head(ks), Tongue(Tail(ks), v)>> >>)
MergeAt(ks, v, b, deep) ==
  IF ~IsB(b) THEN Bad
  ELSE IF ks = <<>> THEN B(IF deep THEN Deep(b.b, v.b) ELSE Merge(b.b, v.b))
  ELSE IF ~In(b.b, Head(ks)) THEN B(Append(b.b, <<Head(ks), Tongue(Tail(ks), v)>>))
  ELSE LET w == MergeAt(Tail(ks), v, Get(b.b, Head(ks)), deep)
       IN IF w = Bad THEN Bad ELSE B(Put(b.b, Head(ks), w))
PathVal(v, ks) == IF ks = <<>> THEN v ELSE IF ~IsB(v) \/ ~In(v.b, Head(ks)) THEN Bad ELSE PathVal(Get(v.b, Head(ks)), Tail(ks))

SortKeys(b) == SortSeq(b, LAMBDA x, y : x[1] < y[1])
NoDup(q) == \A i, j \in 1..Len(q) : i /= j => q[i] /= q[j]

(* everything found under a key, at any depth, outermost first; lists are gone through *)
RECURSIVE Deeps(_, _, _)
Deeps(k, v, path) ==
  CASE IsB(v) -> (IF In(v.b, k) THEN << <<path \o <<k>>, Get(v.b, k)>> >> ELSE <<>>)
                 \o Flat([i \in 1..Len(v.b) |-> Deeps(k, v.b[i][2], path \o <<v.b[i][1]>>)])
    [] IsL(v) -> Flat([i \in 1..Len(v.l) |-> Deeps(k, v.l[i], path)])
    [] OTHER -> <<>>

RECURSIVE Incr(_)
(* deep-transform by a rule for numbers *)
Incr(v) == CASE IsN(v) -> N(v.n + 1)
             [] IsB(v) -> B([i \in 1..Len(v.b) |-> <<v.b[i][1], Incr(v.b[i][2])>>])
             [] IsL(v) -> L([i \in 1..Len(v.l) |-> Incr(v.l[i])])
             [] OTHER -> v

(* patterns: blocks and lists of patterns, predicates [f |-> name], and values  *)
IsF(p) == "f" \in DOMAIN p
Pred(f, v) == CASE f = "any" -> TRUE [] f = "isn" -> IsN(v) [] f = "iss" -> IsS(v) [] f = "isl" -> IsL(v) [] f = "isblk" -> IsB(v) [] f = "isz" -> IsZ(v)
Preds == {"any", "isn", "iss", "isl", "isblk", "isz"}
RECURSIVE Match(_, _), MatchFails(_, _), PatOf(_, _)
(* a block pattern matches a block that has at least its keys, matching *)
Match(p, v) == CASE IsF(p) -> Pred(p.f, v)
                 [] IsB(p) -> IsB(v) /\ \A i \in 1..Len(p.b) : In(v.b, p.b[i][1]) /\ Match(p.b[i][2], Get(v.b, p.b[i][1]))
                 [] IsL(p) -> IsL(v) /\ Len(p.l) = Len(v.l) /\ \A i \in 1..Len(p.l) : Match(p.l[i], v.l[i])
                 [] OTHER -> Same(p, v)
(* matching might look at a failing value *)
MatchFails(p, v) == CASE IsF(p) -> IsP(v) /\ p.f /= "any"
                 [] IsP(p) \/ IsP(v) -> TRUE
                 [] IsB(p) /\ IsB(v) -> \E i \in 1..Len(p.b) : In(v.b, p.b[i][1]) /\ MatchFails(p.b[i][2], Get(v.b, p.b[i][1]))
                 [] IsL(p) /\ IsL(v) -> Len(p.l) = Len(v.l) /\ \E i \in 1..Len(p.l) : MatchFails(p.l[i], v.l[i])
                 [] OTHER -> ~Clean(p)
RPred(z) == [f |-> RandomElement(Preds)]
(* a pattern modelled on a value: it may or may not match *)
PatOf(v, d) == Pick(1..100, LAMBDA c :
  CASE c <= 12 -> RPred(0)
    [] c <= 45 /\ IsP(v) -> [f |-> "any"]
    [] IsB(v) /\ c <= 92 ->
         Pick({Filter(v.b, LAMBDA e : Chance(70))}, LAMBDA q :
           B([i \in 1..Len(q) |-> TLCEval(<<q[i][1], PatOf(q[i][2], d - 1)>>)]
             \o (IF Chance(12) THEN Pick(Ks, LAMBDA k : IF In(q, k) THEN <<>> ELSE << <<k, IF Chance(30) THEN Null ELSE RPred(0)>> >>) ELSE <<>>)))
    [] IsL(v) /\ c <= 92 -> L(Gen(Len(v.l), LAMBDA i : PatOf(v.l[i], d - 1)) \o (IF Chance(6) THEN <<RPred(0)>> ELSE <<>>))
    [] IsN(v) /\ c <= 60 -> [f |-> "isn"]
    [] c <= 97 -> v
    [] OTHER -> N(RandomElement(0..9)))

(* queries: a key by its index, 0 for any one level, -1 for any depth *)
RECURSIVE Desc(_, _), Segs(_, _)
Desc(path, v) == IF IsB(v) THEN << <<path, v>> >> \o Flat([i \in 1..Len(v.b) |-> Desc(path \o <<v.b[i][1]>>, v.b[i][2])]) ELSE <<>>
Seg(q, ps) == Flat([i \in 1..Len(ps) |->
   LET path == ps[i][1]  v == ps[i][2] IN
   CASE q = -1 -> Desc(path, v)
     [] ~IsB(v) -> <<>>
     [] q = 0 -> [j \in 1..Len(v.b) |-> <<path \o <<v.b[j][1]>>, v.b[j][2]>>]
     [] OTHER -> IF In(v.b, q) THEN << <<path \o <<q>>, Get(v.b, q)>> >> ELSE <<>>])
Segs(qs, ps) == IF qs = <<>> THEN ps ELSE Segs(Tail(qs), Seg(Head(qs), ps))
Query(qs, v) == Segs(IF Head(qs) = -1 THEN qs ELSE <<-1>> \o qs, << <<<<>>, v>> >>)
RQuery(b) == Pick(1..3, LAMBDA n : Gen(n, LAMBDA i : LET c == RandomElement(1..10) IN IF c <= 2 THEN -1 ELSE IF c <= 4 THEN 0 ELSE RandomElement(Ks)))

----------------------------------------------------------------------------
(* steps *)
RegsOf(P(_)) == {i \in 1..Len(regs) : P(regs[i])}
R(i) == [r |-> i]
V(v) == [v |-> v]
K(k) == [k |-> k]
KL(ks) == [ks |-> ks]
Fn(f) == [f |-> f]

Put1(op, args, v) == regs' = Append(regs, v) /\ prog' = Append(prog, [o |-> op, a |-> args])
Lit == \E v \in {RBlock(3)} : Put1("lit", <<V(v)>>, v)
(* an operation that has no meaning on its operands is replaced by a literal *)
Out(op, args, v) == IF v = Bad \/ Size(v) > 60 THEN Lit ELSE Put1(op, args, v)

BlockRegs == RegsOf(IsB)
CleanBlocks == {i \in BlockRegs : Clean(regs[i])}
PathOf(v) == IF IsB(v) /\ v.b /= <<>> THEN
               Pick(1..Len(v.b), LAMBDA i : IF IsB(v.b[i][2]) /\ v.b[i][2].b /= <<>> /\ Chance(70)
                                              THEN Pick(1..Len(v.b[i][2].b), LAMBDA j : <<v.b[i][1], v.b[i][2].b[j][1]>>)
                                              ELSE <<v.b[i][1]>>)
             ELSE <<1>>
RPath(v) == IF Chance(75) THEN PathOf(v) ELSE Pick(0..2, LAMBDA n : Gen(n, LAMBDA i : RandomElement(Ks)))
SomeKey(b) == IF b /= <<>> /\ Chance(70) THEN b[RandomElement(1..Len(b))][1] ELSE RandomElement(Ks)
RKeys(z) == Pick(0..4, LAMBDA n : Gen(n, LAMBDA i : RandomElement(Ks)))

Two(op, f(_, _)) == \E i \in {RandomElement(BlockRegs)}, j \in {RandomElement(BlockRegs)} :
                      Out(op, <<R(i), R(j)>>, B(f(regs[i].b, regs[j].b)))
MergeS == Two("merge", Merge)
CatS == Two("cat", Merge)
DeepS == Two("deep", Deep)
MergeAll == \E i, j, k \in {RandomElement(BlockRegs)} : Out("merge-all", <<R(i), R(j), R(k)>>, B(Merge(Merge(regs[i].b, regs[j].b), regs[k].b)))
One == \E i \in {RandomElement(BlockRegs)} : LET b == regs[i].b IN
  \E k \in {SomeKey(b)}, k2 \in {SomeKey(b)}, f \in {RandomElement(Fs)}, d \in {RVal(1)}, ks \in {RPath(regs[i])}, op \in {RandomElement(Ops)} :
    CASE op = "alter-value" -> Out(op, <<K(k), V(d), R(i)>>, B(IF In(b, k) THEN Put(b, k, d) ELSE b))
      [] op = "update-value" -> Out(op, <<K(k), Fn(f), R(i)>>, B(Upd(b, k, f)))
      [] op = "update-value-or" -> Out(op, <<K(k), Fn(f), V(d), R(i)>>, B(UpdOr(b, k, f, d)))
      [] op = "set-value" -> Out(op, <<K(k), V(d), R(i)>>, B(Put(b, k, d)))
      [] op = "alter" -> Out(op, <<KL(ks), V(d), R(i)>>, AlterTo(regs[i], ks, d))
      [] op = "update" -> Out(op, <<KL(ks), Fn(f), R(i)>>, Alter(regs[i], ks, f))
      [] op = "merge-at" -> \E j \in {RandomElement(BlockRegs)} : Out(op, <<KL(ks), R(j), R(i)>>, MergeAt(ks, regs[j], regs[i], FALSE))
      [] op = "deep-merge-at" -> \E j \in {RandomElement(BlockRegs)} : Out(op, <<KL(ks), R(j), R(i)>>, MergeAt(ks, regs[j], regs[i], TRUE))
      [] op = "tongue" -> Out(op, <<KL(ks), R(i)>>, Tongue(ks, regs[i]))
      [] op = "sort-keys" -> Out(op, <<R(i)>>, B(SortKeys(b)))
      [] op = "map-values" -> Out(op, <<Fn(f), R(i)>>, B([x \in 1..Len(b) |-> <<b[x][1], F(f, b[x][2])>>]))
      [] op = "map-kv" -> Out(op, <<R(i)>>, Pairs(b))
      [] op = "elements" -> Out(op, <<R(i)>>, Pairs(b))
      [] op = "reblock" -> Out(op, <<R(i)>>, regs[i])
      [] op = "keys" -> Out(op, <<R(i)>>, L([x \in 1..Len(b) |-> Y(b[x][1])]))
      [] op = "values" -> Out(op, <<R(i)>>, L([x \in 1..Len(b) |-> b[x][2]]))
      [] op = "count" -> Out(op, <<R(i)>>, N(Len(b)))
      [] op = "select" -> \E kl \in {RKeys(0)} : Out(op, <<KL(kl), R(i)>>, B(Filter(b, LAMBDA e : e[1] \in ToSet(kl))))
      [] op = "dissoc" -> \E kl \in {RKeys(0)} : Out(op, <<KL(kl), R(i)>>, B(Filter(b, LAMBDA e : e[1] \notin ToSet(kl))))
      [] op = "by-key" -> \E p \in {RandomElement(KPs)} : Out(op, <<Fn(p), R(i)>>, B(Filter(b, LAMBDA e : KP(p, e[1]))))
      [] op = "by-value" -> \E p \in {RandomElement(VPs)} : Out(op, <<Fn(p), R(i)>>, IF HasPoison(b) THEN Bad ELSE Pairs(Filter(b, LAMBDA e : VP(p, e[2]))))
      [] op = "filter-values" -> \E p \in {RandomElement(VPs)} : Out(op, <<Fn(p), R(i)>>, IF HasPoison(b) THEN Bad ELSE L(Map(LAMBDA e : e[2], Filter(b, LAMBDA e : VP(p, e[2])))))
      [] op = "map-keys" -> Out(op, <<R(i)>>, B([x \in 1..Len(b) |-> <<IF b[x][1] > NKeys THEN b[x][1] ELSE NKeys + 1 - b[x][1], b[x][2]>>]))
      [] op = "kv-block" -> Out(op, <<K(k), R(i)>>, B(<< <<k, regs[i]>> >>))
      [] op = "zip-kv" -> \E n \in {RandomElement(0..3)}, m \in {RandomElement(0..3)} : \E kk \in {Keys0(n)} :
             Out(op, <<KL(kk), V(L([x \in 1..m |-> N(x)])), R(i)>>, B([x \in 1..(IF n < m THEN n ELSE m) |-> <<kk[x], N(x)>>]))
      [] op = "map-as-block" -> \E n \in {RandomElement(0..3)} : \E kk \in {Keys0(n)} : Out(op, <<KL(kk), Fn(f)>>, B([x \in 1..n |-> <<kk[x], F(f, Y(kk[x]))>>]))
      [] op = "has" -> Out(op, <<K(k), R(i)>>, T(In(b, k)))
      [] op = "lookup" -> Out(op, <<K(k), R(i)>>, IF In(b, k) THEN Get(b, k) ELSE Bad)
      [] op = "dot" -> Out(op, <<K(k), R(i)>>, IF In(b, k) THEN Get(b, k) ELSE Bad)
      [] op = "safe" -> Out(op, <<K(k), R(i)>>, IF In(b, k) THEN Get(b, k) ELSE Null)
      [] op = "safe2" -> Out(op, <<K(k), K(k2), R(i)>>, IF ~In(b, k) THEN Null
                            ELSE LET v == Get(b, k) IN IF IsP(v) THEN Poison ELSE IF IsB(v) /\ In(v.b, k2) THEN Get(v.b, k2) ELSE Null)
      [] op = "lookup-or" -> Out(op, <<K(k), V(d), R(i)>>, IF In(b, k) THEN Get(b, k) ELSE d)
      [] op = "lookup-alts" -> Out(op, <<KL(<<k, k2>>), V(d), R(i)>>, IF In(b, k) THEN Get(b, k) ELSE IF In(b, k2) THEN Get(b, k2) ELSE d)
      [] op = "lookup-across" -> \E j \in {RandomElement(BlockRegs)} : Out(op, <<K(k), V(d), R(i), R(j)>>, IF In(b, k) THEN Get(b, k) ELSE IF In(regs[j].b, k) THEN Get(regs[j].b, k) ELSE d)
      [] op = "lookup-path" -> Out(op, <<KL(ks), R(i)>>, PathVal(regs[i], ks))
      [] op = "dotpath" -> Out(op, <<KL(ks), R(i)>>, IF ks = <<>> THEN Bad ELSE PathVal(regs[i], ks))
      [] op = "gen-lookup" -> Out(op, <<K(k), K(k2), R(i)>>, IF In(b, k) /\ In(b, k2) THEN L(<<Get(b, k), Get(b, k2)>>) ELSE Bad)
      [] op = "deep-find" -> Out(op, <<K(k), R(i)>>, IF Clean(regs[i]) THEN L(Map(LAMBDA e : e[2], Deeps(k, regs[i], <<>>))) ELSE Bad)
      [] op = "deep-find-paths" -> Out(op, <<K(k), R(i)>>, IF Clean(regs[i]) THEN L(Map(LAMBDA e : L(Map(Y, e[1])), Deeps(k, regs[i], <<>>))) ELSE Bad)
      [] op = "deep-find-first" -> Out(op, <<K(k), V(d), R(i)>>, IF ~Clean(regs[i]) THEN Bad ELSE LET q == Deeps(k, regs[i], <<>>) IN IF q = <<>> THEN d ELSE q[1][2])
      [] op = "deep-transform" -> Out(op, <<R(i)>>, IF Clean(regs[i]) THEN Incr(regs[i]) ELSE Bad)
      [] op = "match" -> \E p \in {IF Chance(80) THEN PatOf(regs[i], 3) ELSE Pick(BlockRegs, LAMBDA j : PatOf(regs[j], 3))} :
                          Out(op, <<V(p), R(i)>>, IF MatchFails(p, regs[i]) THEN Bad ELSE T(Match(p, regs[i])))
      [] op = "deep-query" -> \E q \in {RQuery(b)} : Out(op, <<[q |-> q], R(i)>>, IF Clean(regs[i]) THEN L(Map(LAMBDA e : e[2], Query(q, regs[i]))) ELSE Bad)
      [] op = "deep-query-paths" -> \E q \in {RQuery(b)} : Out(op, <<[q |-> q], R(i)>>, IF Clean(regs[i]) THEN L(Map(LAMBDA e : L(Map(Y, e[1])), Query(q, regs[i]))) ELSE Bad)
      [] op = "deep-query-first" -> \E q \in {RQuery(b)} : Out(op, <<[q |-> q], V(d), R(i)>>, IF ~Clean(regs[i]) THEN Bad ELSE LET x == Query(q, regs[i]) IN IF x = <<>> THEN d ELSE x[1][2])
      [] op = "equal" -> \E j \in {RandomElement(BlockRegs)} : Out(op, <<R(i), R(j)>>, IF Clean(regs[i]) /\ Clean(regs[j]) THEN T(Same(regs[i], regs[j])) ELSE Bad)
      [] op = "kind" -> \E j \in {RandomElement(1..Len(regs))}, c \in {RandomElement({"isn", "iss", "isy", "isl", "isblk", "ist", "isz"})} :
             Out(op, <<Fn(c), R(j)>>, LET v == regs[j] IN IF IsP(v) THEN Bad ELSE
               T(CASE c = "isn" -> IsN(v) [] c = "iss" -> IsS(v) [] c = "isy" -> IsY(v) [] c = "isl" -> IsL(v) [] c = "isblk" -> IsB(v) [] c = "ist" -> IsT(v) [] c = "isz" -> IsZ(v)))
      [] op = "nest" -> \E j \in {RandomElement(1..Len(regs))} : Out(op, <<K(k), R(i), R(j)>>, IF k > NKeys THEN Bad ELSE B(<< <<k, regs[i]>>, <<NKeys + 1, regs[j]>> >>))
      [] op = "merge" -> MergeS
      [] op = "cat" -> CatS
      [] op = "deep" -> DeepS
      [] op = "merge-all" -> MergeAll
      [] op = "lit" -> Lit

Init == regs = <<>> /\ prog = <<>>
Next == /\ Len(regs) < Steps
        /\ IF Len(regs) < 2 THEN Lit ELSE One
Spec == Init /\ [][Next]_vars

(* nothing made earlier is changed by a later step *)
Persistent == [][\A i \in 1..Len(regs) : regs'[i] = regs[i]]_vars

Emit == Len(regs) = Steps =>
  PrintT("@@" \o ToJson([p |-> prog, v |-> regs, c |-> [i \in 1..Len(regs) |-> Clean(regs[i])]]))
=============================================================================
