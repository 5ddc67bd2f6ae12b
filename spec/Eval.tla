-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Call-by-need evaluation of a lazy language with mutually recursive      *)
(* bindings, functions, lists, blocks and block merge.                     *)
(*                                                                         *)
(* A well typed program is written production by production (a stack of    *)
(* holes to fill), then parsed and run by a lazy abstract machine with an  *)
(* explicit heap of suspended computations, update frames and black holes. *)
(* Every suspended computation is entered at most once; tracing marks      *)
(* ("tr") record which parts of the program were evaluated.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxToks,    \* size of the program
          RecTops,      \* all top-level bindings see each other, whatever their types
  MinNest, MaxNest,
  Fuel,       \* longest evaluation followed
          TopTypes,   \* set of sequences of types of the top-level bindings
          MainTypes,
          Features    \* productions allowed beyond the basic ones

VARIABLES phase, toks, holes, tops, ctrl, env, heap, stack, trace, steps

vars == <<phase, toks, holes, tops, ctrl, env, heap, stack, trace, steps>>

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

----------------------------------------------------------------------------
(* Writing *)

\* no: the name being defined, which may not be the whole definition
Hole(ty, sc) == [ty |-> ty, sc |-> sc, d |-> 0, no |-> ""]
No(h, x) == [h EXCEPT !.no = x]
B(x, ty) == [x |-> x, ty |-> ty]

\* productions: [t |-> token, k |-> sequence of child holes]
P(t, k) == [t |-> t, k |-> k]
H0(ty, h) == Hole(ty, h.sc)

Fresh(h, i) == "x" \o ToString(Len(toks)) \o (IF i = 1 THEN "" ELSE "y")

Vars(h) == {P([o |-> "var", x |-> h.sc[i].x, ty |-> ""], <<>>) : i \in {j \in 1..Len(h.sc) : h.sc[j].ty = h.ty /\ h.sc[j].x # h.no}}
T(o) == [o |-> o, x |-> "", ty |-> ""]
Ty(o, x, ty) == [o |-> o, x |-> x, ty |-> ty]

Leaves(h) ==
  Vars(h) \cup
  (CASE h.ty = "N" -> {P(Ty("lit", ToString(i), ""), <<>>) : i \in 0..3}
     [] h.ty = "B" -> {P(T("true"), <<>>), P(T("false"), <<>>)}
     [] h.ty = "L" -> {P(T("nil"), <<>>)}
     [] h.ty = "F" -> {P(T("succ"), <<>>)}
     [] h.ty = "G" -> {P(T("plus"), <<>>), P(T("fst"), <<>>)}
     [] h.ty = "K" -> {P(T("blkc"), <<>>)})

Nodes(h) ==
  LET x  == Fresh(h, 1)
      y  == Fresh(h, 2)
      in(ty, bs) == Hole(ty, h.sc \o bs)
      \* a block's own names hide outer ones even where they may not be used
      out(ty, bs) == Hole(ty, SelectSeq(h.sc, LAMBDA q : q.x \notin {"a", "b"}) \o bs)
      lets == {P(Ty("let", x, t), <<H0(t, h), No(in(h.ty, <<B(x, t)>>), h.no)>>) : t \in {"N", "L", "F", "K"}}
              \cup {P(Ty("letr", x, t), <<No(in(t, <<B(x, t)>>), x), No(in(h.ty, <<B(x, t)>>), h.no)>>) : t \in {"N", "L", "F", "K"}}
  IN
  {p \in
   (CASE h.ty = "N" ->
         {P(T("add"), <<H0("N", h), H0("N", h)>>), P(T("mul"), <<H0("N", h), H0("N", h)>>), P(T("sub"), <<H0("N", h), H0("N", h)>>),
          P(T("if"), <<H0("B", h), H0("N", h), H0("N", h)>>),
          P(T("head"), <<H0("L", h)>>), P(T("sum"), <<H0("L", h)>>), P(T("hdor"), <<H0("N", h), H0("L", h)>>), P(Ty("hdor", "w", ""), <<H0("N", h), H0("L", h)>>),
          P(T("foldl"), <<H0("G", h), H0("N", h), H0("L", h)>>),
          P(Ty("loop", x, y), <<in("N", <<B(x, "N"), B(y, "N")>>), H0("N", h)>>),
          P(T("app1"), <<H0("F", h), H0("N", h)>>), P(T("app2"), <<H0("G", h), H0("N", h), H0("N", h)>>),
          P(Ty("get", "a", ""), <<H0("K", h)>>), P(Ty("get", "b", ""), <<H0("K", h)>>),
          P(Ty("tr", ToString(Len(toks)), ""), <<H0("N", h)>>), P(Ty("tr", ToString(Len(toks)), "w"), <<H0("N", h)>>),
          P(Ty("tr", ToString(Len(toks)), "w2"), <<H0("N", h)>>), P(Ty("tr", ToString(Len(toks)), "w3"), <<H0("N", h)>>)} \cup lets
     [] h.ty = "B" ->
         {P(T("lt"), <<H0("N", h), H0("N", h)>>), P(T("eq"), <<H0("N", h), H0("N", h)>>),
          P(T("and"), <<H0("B", h), H0("B", h)>>), P(T("or"), <<H0("B", h), H0("B", h)>>), P(T("not"), <<H0("B", h)>>),
          P(T("isnil"), <<H0("L", h)>>)}
     [] h.ty = "L" ->
         {P(T("cons"), <<H0("N", h), H0("L", h)>>), P(Ty("cons", "w", ""), <<H0("N", h), H0("L", h)>>), P(Ty("cons", "ww", ""), <<H0("N", h), H0("L", h)>>),
          P(T("tail"), <<H0("L", h)>>), P(T("tlor"), <<H0("L", h)>>), P(T("iter"), <<H0("F", h), H0("N", h)>>), P(T("if"), <<H0("B", h), H0("L", h), H0("L", h)>>),
          P(T("map"), <<H0("F", h), H0("L", h)>>), P(T("take"), <<H0("N", h), H0("L", h)>>),
          P(Ty("tr", ToString(Len(toks)), ""), <<H0("L", h)>>)} \cup {p \in lets : p.t.ty \in {"L", "K"}}
     [] h.ty = "F" ->
         {P(Ty("lam1", x, ""), <<in("N", <<B(x, "N")>>)>>), P(Ty("lam1", x, ""), <<in("N", <<B(x, "N")>>)>>),
          P(T("pap"), <<H0("G", h), H0("N", h)>>), P(T("comp"), <<H0("F", h), H0("F", h)>>),
          P(Ty("rec", x, y), <<in("B", <<B(x, "F"), B(y, "N")>>), in("N", <<B(x, "F"), B(y, "N")>>), in("N", <<B(x, "F"), B(y, "N")>>)>>)}
     [] h.ty = "G" -> {P(Ty("lam2", x, y), <<in("N", <<B(x, "N"), B(y, "N")>>)>>)}
     [] h.ty = "K" ->
         {P(Ty("blkr", x, y), <<No(in("N", <<B("a", "N"), B("b", "N")>>), "a"), No(in("N", <<B("a", "N"), B("b", "N")>>), "b")>>),
          P(T("blk"), <<out("N", <<>>), out("N", <<B("a", "N")>>)>>), P(Ty("blk", "w", ""), <<out("N", <<>>), out("N", <<B("a", "N")>>)>>),
          P(T("blka"), <<No(in("N", <<B("a", "N")>>), "a")>>),
          P(T("merge"), <<H0("K", h), H0("K", h)>>), P(T("merge"), <<H0("K", h), H0("K", h)>>),
          P(T("if"), <<H0("B", h), H0("K", h), H0("K", h)>>)})
   : p.t.o \in Features}

Budget == MaxToks - Len(toks) - Len(holes)

Choices(h) == IF Budget <= 0 \/ h.d >= MaxNest \/ Nodes(h) = {} THEN (IF h.d > 0 /\ Vars(h) # {} THEN Vars(h) \cup (IF h.d % 2 = 0 THEN Leaves(h) ELSE {}) ELSE Leaves(h))
              ELSE IF h.d < MinNest THEN Nodes(h)
              ELSE Leaves(h) \cup Nodes(h)

TopNames == <<"t1", "t2", "t3", "t4", "t5", "t6">>
TopScope(ts) == [i \in 1..Len(ts) |-> B(TopNames[i], ts[i])]

Init ==
  /\ phase = "write" /\ toks = <<>>
  /\ tops \in {<<m>> \o ts : ts \in TopTypes, m \in MainTypes}
  /\ LET sc == TopScope(Tail(tops)) IN
     holes = [i \in 1..Len(tops) |-> No(Hole(tops[i], IF i = 1 THEN sc
                                      ELSE IF RecTops \/ tops[i] \in {"L", "F"} THEN SelectSeq(sc, LAMBDA b : b.ty # "N" \/ b.x # TopNames[i - 1])
                                      ELSE SubSeq(sc, i, Len(sc))), IF i = 1 THEN "main" ELSE TopNames[i - 1])]
  /\ ctrl = [m |-> "none"] /\ env = <<>> /\ heap = <<>> /\ stack = <<>> /\ trace = <<>> /\ steps = 0

Write ==
  /\ phase = "write" /\ holes # <<>>
  /\ \E p \in Choices(Head(holes)) :
       /\ toks' = Append(toks, p.t)
       /\ holes' = [i \in 1..Len(p.k) |-> [p.k[i] EXCEPT !.d = Head(holes).d + 1]] \o Tail(holes)
  /\ UNCHANGED <<phase, tops, ctrl, env, heap, stack, trace, steps>>

----------------------------------------------------------------------------
(* Parsing the prefix sequence *)

NKids(o) == CASE o \in {"var", "lit", "true", "false", "nil", "succ", "plus", "fst", "blkc"} -> 0
              [] o \in {"head", "sum", "get", "tr", "not", "isnil", "tail", "tlor", "lam1", "lam2", "blka"} -> 1
              [] o \in {"if", "app2", "rec", "foldl"} -> 3
              [] OTHER -> 2

RECURSIVE Parse(_)
Parse(i) == \* <<node, next>>
  LET t == toks[i]
      n == NKids(t.o)
  IN CASE n = 0 -> <<[t |-> t, k |-> <<>>], i + 1>>
       [] n = 1 -> LET a == Parse(i + 1) IN <<[t |-> t, k |-> <<a[1]>>], a[2]>>
       [] n = 2 -> LET a == Parse(i + 1) b == Parse(a[2]) IN <<[t |-> t, k |-> <<a[1], b[1]>>], b[2]>>
       [] OTHER -> LET a == Parse(i + 1) b == Parse(a[2]) c == Parse(b[2]) IN <<[t |-> t, k |-> <<a[1], b[1], c[1]>>], c[2]>>

RECURSIVE ParseTops(_, _)
ParseTops(i, n) == IF n = 0 THEN <<>> ELSE LET r == Parse(i) IN <<r[1]>> \o ParseTops(r[2], n - 1)

Tk(o) == [o |-> o, x |-> "", ty |-> ""]
E0(o) == [t |-> Tk(o), k |-> <<>>]
E1(o, a) == [t |-> Tk(o), k |-> <<a>>]
E2(o, a, b) == [t |-> Tk(o), k |-> <<a, b>>]
E3(o, a, b, c) == [t |-> Tk(o), k |-> <<a, b, c>>]
V(x) == [t |-> [o |-> "var", x |-> x, ty |-> ""], k |-> <<>>]
Lit(s) == [t |-> [o |-> "lit", x |-> s, ty |-> ""], k |-> <<>>]

(* library functions, in the language itself *)
MapBody  == E3("if", E1("isnil", V("l")), E0("nil"), E2("cons", E2("app1", V("f"), E1("head", V("l"))), E2("map", V("f"), E1("tail", V("l")))))
TakeBody == E3("if", E2("or", E2("eq", V("n"), Lit("0")), E1("isnil", V("l"))), E0("nil"),
               E2("cons", E1("head", V("l")), E2("take", E2("sub", V("n"), Lit("1")), E1("tail", V("l")))))
HdorBody == E3("if", E1("isnil", V("l")), V("d"), E1("head", V("l")))
TlorBody == E3("if", E1("isnil", V("l")), E0("nil"), E1("tail", V("l")))
IterBody == E2("cons", V("n"), E2("iter", V("f"), E2("app1", V("f"), V("n"))))
FoldBody == E3("if", E1("isnil", V("l")), V("i"), E3("foldl", V("g"), E3("app2", V("g"), V("i"), E1("head", V("l"))), E1("tail", V("l"))))
LoopBody(x, y, b) == E3("if", E2("lt", V(x), Lit("1")), V(y), E3("app2", V("loop"), E2("sub", V(x), Lit("1")), b))
SumBody  == E3("if", E1("isnil", V("l")), Lit("0"), E2("add", E1("head", V("l")), E1("sum", E1("tail", V("l")))))

----------------------------------------------------------------------------
(* The machine.  Heap cells: [s |-> "thunk", e, env], [s |-> "hole"],       *)
(* [s |-> "val", v]; entered counts the times a thunk was started.          *)

Thunk(e, r) == [s |-> "thunk", e |-> e, env |-> r, n |-> 0]
ValCell(v) == [s |-> "val", v |-> v, n |-> 0]

Num(s) == CASE s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3

NVal(n) == [v |-> "n", n |-> n]
BVal(b) == [v |-> "b", b |-> b]

Ev(e, r) == [m |-> "ev", e |-> e, env |-> r]
Ret(v) == [m |-> "ret", v |-> v]

Run == phase = "run" /\ steps < Fuel
Tick == steps' = steps + 1
Keep == UNCHANGED <<phase, toks, holes, tops, env>>

Start ==
  /\ phase = "write" /\ holes = <<>>
  /\ LET bs == ParseTops(1, Len(tops))
         r  == [x \in {TopNames[i] : i \in 1..(Len(tops) - 1)} |-> 1 + CHOOSE i \in 1..Len(tops) : TopNames[i] = x]
     IN /\ heap' = [i \in 1..Len(tops) |-> Thunk(bs[i], r)]
        /\ ctrl' = [m |-> "enter", a |-> 1]
  /\ phase' = "run"
  /\ UNCHANGED <<toks, holes, tops, env, stack, trace, steps>>

\* add cells to the heap
New(cs) == heap \o cs
At(i) == Len(heap) + i

Enter ==
  /\ Run /\ ctrl.m = "enter" /\ Tick /\ Keep
  /\ LET c == heap[ctrl.a] IN
     CASE c.s = "val" -> ctrl' = Ret(c.v) /\ UNCHANGED <<heap, stack>>
       [] c.s = "hole" -> ctrl' = [m |-> "fail", why |-> "cycle"] /\ UNCHANGED <<heap, stack>>
       [] OTHER -> /\ heap' = [heap EXCEPT ![ctrl.a] = [s |-> "hole", n |-> c.n + 1]]
                   /\ stack' = Append(stack, [f |-> "upd", a |-> ctrl.a])
                   /\ ctrl' = Ev(c.e, c.env)
  /\ UNCHANGED trace

Push(fr, c) == stack' = Append(stack, fr) /\ ctrl' = c /\ UNCHANGED <<heap, trace>>

Eval ==
  /\ Run /\ ctrl.m = "ev" /\ Tick /\ Keep
  /\ LET e == ctrl.e
         r == ctrl.env
         o == e.t.o
         k == e.k
         Value(v) == ctrl' = Ret(v) /\ UNCHANGED <<heap, stack, trace>>
     IN
     CASE o = "var" -> ctrl' = [m |-> "enter", a |-> r[e.t.x]] /\ UNCHANGED <<heap, stack, trace>>
       [] o = "lit" -> Value(NVal(Num(e.t.x)))
       [] o = "true" -> Value(BVal(TRUE))
       [] o = "false" -> Value(BVal(FALSE))
       [] o = "nil" -> Value([v |-> "nil"])
       [] o = "blk0" -> Value([v |-> "blk", fs |-> [x \in {} |-> 0]])
       [] o = "cons" -> /\ heap' = New(<<Thunk(k[1], r), Thunk(k[2], r)>>)
                        /\ ctrl' = Ret([v |-> "cons", h |-> At(1), t |-> At(2)]) /\ UNCHANGED <<stack, trace>>
       [] o \in {"add", "sub", "mul", "lt", "eq"} -> Push([f |-> "left", o |-> o, e |-> k[2], env |-> r], Ev(k[1], r))
       [] o \in {"if", "and", "or"} -> Push([f |-> "cond", o |-> o, k |-> k, env |-> r], Ev(k[1], r))
       [] o \in {"not", "isnil", "head", "tail"} -> Push([f |-> "un", o |-> o, x |-> ""], Ev(k[1], r))
       [] o = "get" -> Push([f |-> "un", o |-> o, x |-> e.t.x], Ev(k[1], r))
       [] o = "merge" -> Push([f |-> "left", o |-> o, e |-> k[2], env |-> r], Ev(k[1], r))
       [] o = "tr" -> Push([f |-> "mark", x |-> e.t.x], Ev(k[1], r))
       [] o = "let" -> heap' = New(<<Thunk(k[1], r)>>) /\ ctrl' = Ev(k[2], (e.t.x :> At(1)) @@ r) /\ UNCHANGED <<stack, trace>>
       [] o = "letr" -> LET r2 == (e.t.x :> At(1)) @@ r IN
                       heap' = New(<<Thunk(k[1], r2)>>) /\ ctrl' = Ev(k[2], r2) /\ UNCHANGED <<stack, trace>>
       [] o = "blkc" -> /\ heap' = New(<<ValCell(NVal(1)), ValCell(NVal(2))>>)
                        /\ ctrl' = Ret([v |-> "blk", fs |-> ("a" :> At(1)) @@ ("b" :> At(2))]) /\ UNCHANGED <<stack, trace>>
       [] o = "blk" -> LET r2 == ("a" :> At(1)) @@ r IN
                       /\ heap' = New(<<Thunk(k[1], r), Thunk(k[2], r2)>>)
                       /\ ctrl' = Ret([v |-> "blk", fs |-> ("a" :> At(1)) @@ ("b" :> At(2))]) /\ UNCHANGED <<stack, trace>>
       [] o = "loop" -> LET f == [v |-> "fun", ps |-> <<e.t.x, e.t.ty>>, e |-> LoopBody(e.t.x, e.t.ty, k[1]), env |-> ("loop" :> At(1)) @@ r, got |-> <<>>] IN
                       /\ heap' = New(<<ValCell(f), ValCell(NVal(3)), Thunk(k[2], r)>>)
                       /\ stack' = Append(stack, [f |-> "ap", as |-> <<At(2), At(3)>>]) /\ ctrl' = Ret(f) /\ UNCHANGED trace
       [] o = "iter" -> /\ heap' = New(<<Thunk(k[1], r), Thunk(k[2], r)>>)
                        /\ ctrl' = Ev(IterBody, ("f" :> At(1)) @@ ("n" :> At(2))) /\ UNCHANGED <<stack, trace>>
       [] o = "hdor" -> /\ heap' = New(<<Thunk(k[1], r), Thunk(k[2], r)>>)
                        /\ ctrl' = Ev(HdorBody, ("d" :> At(1)) @@ ("l" :> At(2))) /\ UNCHANGED <<stack, trace>>
       [] o = "tlor" -> /\ heap' = New(<<Thunk(k[1], r)>>)
                        /\ ctrl' = Ev(TlorBody, ("l" :> At(1))) /\ UNCHANGED <<stack, trace>>
       [] o = "foldl" -> /\ heap' = New(<<Thunk(k[1], r), Thunk(k[2], r), Thunk(k[3], r)>>)
                        /\ ctrl' = Ev(FoldBody, ("g" :> At(1)) @@ ("i" :> At(2)) @@ ("l" :> At(3))) /\ UNCHANGED <<stack, trace>>
       [] o = "blkr" -> LET r2 == ("a" :> At(1)) @@ ("b" :> At(2)) @@ r IN
                       /\ heap' = New(<<Thunk(k[1], r2), Thunk(k[2], r2)>>)
                       /\ ctrl' = Ret([v |-> "blk", fs |-> ("a" :> At(1)) @@ ("b" :> At(2))]) /\ UNCHANGED <<stack, trace>>
       [] o = "blka" -> LET r2 == ("a" :> At(1)) @@ r IN
                       /\ heap' = New(<<Thunk(k[1], r2)>>)
                       /\ ctrl' = Ret([v |-> "blk", fs |-> ("a" :> At(1))]) /\ UNCHANGED <<stack, trace>>
       [] o = "lam1" -> Value([v |-> "fun", ps |-> <<e.t.x>>, e |-> k[1], env |-> r, got |-> <<>>])
       [] o = "lam2" -> Value([v |-> "fun", ps |-> <<e.t.x, e.t.ty>>, e |-> k[1], env |-> r, got |-> <<>>])
       [] o = "rec" -> LET f == [v |-> "fun", ps |-> <<e.t.ty>>, e |-> E3("if", k[1], k[2], k[3]),
                                  env |-> (e.t.x :> At(1)) @@ r, got |-> <<>>] IN
                       heap' = New(<<ValCell(f)>>) /\ ctrl' = Ret(f) /\ UNCHANGED <<stack, trace>>
       [] o = "succ" -> Value([v |-> "fun", ps |-> <<"p">>, e |-> E2("add", V("p"), Lit("1")), env |-> r, got |-> <<>>])
       [] o = "plus" -> Value([v |-> "fun", ps |-> <<"p", "q">>, e |-> E2("add", V("p"), V("q")), env |-> r, got |-> <<>>])
       [] o = "fst"  -> Value([v |-> "fun", ps |-> <<"p", "q">>, e |-> V("p"), env |-> r, got |-> <<>>])
       [] o = "comp" -> /\ heap' = New(<<Thunk(k[1], r), Thunk(k[2], r)>>)
                        /\ ctrl' = Ret([v |-> "fun", ps |-> <<"p">>, e |-> E2("app1", V("g"), E2("app1", V("f"), V("p"))),
                                        env |-> ("f" :> At(1)) @@ ("g" :> At(2)), got |-> <<>>])
                        /\ UNCHANGED <<stack, trace>>
       [] o \in {"app1", "pap"} -> /\ heap' = New(<<Thunk(k[2], r)>>)
                        /\ stack' = Append(stack, [f |-> "ap", as |-> <<At(1)>>]) /\ ctrl' = Ev(k[1], r) /\ UNCHANGED trace
       [] o = "app2" -> /\ heap' = New(<<Thunk(k[2], r), Thunk(k[3], r)>>)
                        /\ stack' = Append(stack, [f |-> "ap", as |-> <<At(1), At(2)>>]) /\ ctrl' = Ev(k[1], r) /\ UNCHANGED trace
       [] o = "map" -> /\ heap' = New(<<Thunk(k[1], r), Thunk(k[2], r)>>)
                       /\ ctrl' = Ev(MapBody, ("f" :> At(1)) @@ ("l" :> At(2))) /\ UNCHANGED <<stack, trace>>
       [] o = "take" -> /\ heap' = New(<<Thunk(k[1], r), Thunk(k[2], r)>>)
                       /\ ctrl' = Ev(TakeBody, ("n" :> At(1)) @@ ("l" :> At(2))) /\ UNCHANGED <<stack, trace>>
       [] o = "sum" -> /\ heap' = New(<<Thunk(k[1], r)>>)
                       /\ ctrl' = Ev(SumBody, ("l" :> At(1))) /\ UNCHANGED <<stack, trace>>

Pop == stack' = Front(stack)
FailWith(w) == ctrl' = [m |-> "fail", why |-> w] /\ UNCHANGED <<heap, trace>> /\ Pop

Return ==
  /\ Run /\ ctrl.m = "ret" /\ stack # <<>> /\ Tick /\ Keep
  /\ LET fr == Last(stack)
         v  == ctrl.v
         Give(w) == ctrl' = Ret(w) /\ Pop /\ UNCHANGED <<heap, trace>>
         Go(c) == ctrl' = c /\ Pop /\ UNCHANGED <<heap, trace>>
     IN
     CASE fr.f = "upd" -> heap' = [heap EXCEPT ![fr.a] = [s |-> "val", v |-> v, n |-> @.n]] /\ Pop /\ UNCHANGED <<ctrl, trace>>
       [] fr.f = "mark" -> trace' = Append(trace, fr.x) /\ Pop /\ UNCHANGED <<ctrl, heap>>
       [] fr.f = "left" -> /\ stack' = Append(Front(stack), [f |-> "right", o |-> fr.o, v |-> v])
                           /\ ctrl' = Ev(fr.e, fr.env) /\ UNCHANGED <<heap, trace>>
       [] fr.f = "right" ->
            (CASE fr.o = "add" -> Give(NVal(fr.v.n + v.n))
               [] fr.o = "sub" -> Give(NVal(fr.v.n - v.n))
               [] fr.o = "mul" -> IF fr.v.n > 10000 \/ v.n > 10000 \/ fr.v.n < -10000 \/ v.n < -10000 THEN FailWith("big")
                                  ELSE Give(NVal(fr.v.n * v.n))
               [] fr.o = "lt" -> Give(BVal(fr.v.n < v.n))
               [] fr.o = "eq" -> Give(BVal(fr.v.n = v.n))
               [] OTHER -> Give([v |-> "blk", fs |-> v.fs @@ fr.v.fs]))
       [] fr.f = "cond" ->
            (CASE fr.o = "if" -> Go(Ev(IF v.b THEN fr.k[2] ELSE fr.k[3], fr.env))
               [] fr.o = "and" -> IF v.b THEN Go(Ev(fr.k[2], fr.env)) ELSE Give(v)
               [] OTHER -> IF v.b THEN Give(v) ELSE Go(Ev(fr.k[2], fr.env)))
       [] fr.f = "un" ->
            (CASE fr.o = "not" -> Give(BVal(~v.b))
               [] fr.o = "isnil" -> Give(BVal(v.v = "nil"))
               [] fr.o = "head" -> IF v.v = "nil" THEN FailWith("head") ELSE Go([m |-> "enter", a |-> v.h])
               [] fr.o = "tail" -> IF v.v = "nil" THEN FailWith("tail") ELSE Go([m |-> "enter", a |-> v.t])
               [] OTHER -> IF fr.x \in DOMAIN v.fs THEN Go([m |-> "enter", a |-> v.fs[fr.x]]) ELSE FailWith("lookup"))
       [] fr.f = "ap" ->
            LET all == v.got \o fr.as
                n   == Len(v.ps)
            IN IF Len(all) < n THEN Give([v EXCEPT !.got = all])
               ELSE LET r == [x \in {v.ps[i] : i \in 1..n} |-> all[CHOOSE i \in 1..n : v.ps[i] = x]] @@ v.env
                        rest == SubSeq(all, n + 1, Len(all))
                    IN /\ ctrl' = Ev(v.e, r)
                       /\ stack' = IF rest = <<>> THEN Front(stack) ELSE Append(Front(stack), [f |-> "ap", as |-> rest])
                       /\ UNCHANGED <<heap, trace>>

Finish ==
  /\ phase = "run" /\ ((ctrl.m = "ret" /\ stack = <<>>) \/ ctrl.m = "fail")
  /\ phase' = "done"
  /\ UNCHANGED <<toks, holes, tops, ctrl, env, heap, stack, trace, steps>>

Next == Write \/ Start \/ Enter \/ Eval \/ Return \/ Finish

----------------------------------------------------------------------------
(* Call by need: nothing suspended is started twice. *)
AtMostOnce == \A i \in 1..Len(heap) : heap[i].n <= 1
\* when the program has a value, nothing it needed is left half evaluated
NoHolesLeft == (phase = "done" /\ ctrl.m = "ret") => \A i \in 1..Len(heap) : heap[i].s # "hole"
\* what was not needed was not started
UpdatesNested == \A i, j \in 1..Len(stack) : (i # j /\ stack[i].f = "upd" /\ stack[j].f = "upd") => stack[i].a # stack[j].a

Outcome == IF ctrl.m = "fail" THEN [e |-> ctrl.why, n |-> 0] ELSE [e |-> ctrl.v.v, n |-> IF ctrl.v.v = "n" THEN ctrl.v.n ELSE IF ctrl.v.v = "b" THEN (IF ctrl.v.b THEN 1 ELSE 0) ELSE 0]

Emit == phase = "done" =>
  PrintT("@@" \o ToJson([p |-> toks, tops |-> tops, r |-> Outcome, tr |-> trace, steps |-> steps, cells |-> Len(heap)]))
=============================================================================
