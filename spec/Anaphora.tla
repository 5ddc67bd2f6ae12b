------------------------------ MODULE Anaphora ------------------------------
(***************************************************************************)
(* Implicit parameters: expression anaphora (_ and _0 _1 ..), section      *)
(* holes, and block anaphora (the bullets).                                *)
(*                                                                         *)
(* An expression is written token by token, then read token by token by a  *)
(* machine that keeps a stack of open groups.  A soup with an anaphor of   *)
(* its own (or a missing operand) opens a parameter scope unless one is    *)
(* open already; everything inside, parentheses, argument lists, lists and *)
(* blocks, shares the open scope.  When the soup closes it has become a    *)
(* function.  A block collects its bullets in the same way.                *)
(*                                                                         *)
(* The reader builds, side by side, the program text (src), in which each  *)
(* group is followed by a marker operator that applies the functions the   *)
(* group should contain to named arguments, and the text (shown) the value *)
(* must print.  Meaning, the compositional definition of the same thing,   *)
(* is what the reader is checked against.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MinLen, MaxLen, MaxDepth, Kinds   \* Kinds: tokens that may be written

VARIABLES phase, toks, open, pos, stack, scope, bullets, nv, result

vars == <<phase, toks, open, pos, stack, scope, bullets, nv, result>>

Values  == {"v", "_", "_0", "_1", "_2", "b", "b0", "b1", "x", "y"}
Openers == {"(", "f(", "[", "{", "d1", "d2"}
Closers == {")"}

LeftIsValue(t) == t # "op"
Last(s) == s[Len(s)]

----------------------------------------------------------------------------
(* Writing: the token sequence is well bracketed, no soup is empty.         *)

PrevTok == IF toks = <<>> THEN "start" ELSE Last(toks)
SoupEmpty == PrevTok \in {"start", ","} \cup Openers
InBlock == \E i \in 1..Len(open) : open[i].k = "{"
InLam(k) == \E i \in 1..Len(open) : open[i].k \in k

MayWrite(t) ==
  CASE t \in {"b", "b0", "b1"} -> InBlock
    [] t = "x" -> InLam({"d1", "d2"})
    [] t = "y" -> InLam({"d2"})
    [] t \in {"{", "d1", "d2"} -> ~InLam({"{", "d1", "d2"}) /\ Len(open) < MaxDepth
    [] t \in Openers -> Len(open) < MaxDepth
    [] t = "," -> open # <<>> /\ ~SoupEmpty /\ Last(open).k \in {"f(", "[", "{"} /\ Last(open).c = 0
    [] OTHER -> TRUE

Write(t) ==
  /\ phase = "write" /\ Len(toks) + Len(open) < MaxLen /\ MayWrite(t)
  /\ toks' = Append(toks, t)
  /\ open' = IF t \in Openers THEN Append(open, [k |-> t, c |-> 0])
             ELSE IF t = "," THEN [open EXCEPT ![Len(open)].c = 1] ELSE open
  /\ UNCHANGED <<phase, pos, stack, scope, bullets, nv, result>>

CloseGroup ==
  /\ phase = "write" /\ open # <<>> /\ ~SoupEmpty
  /\ toks' = Append(toks, ")")
  /\ open' = SubSeq(open, 1, Len(open) - 1)
  /\ UNCHANGED <<phase, pos, stack, scope, bullets, nv, result>>

----------------------------------------------------------------------------
(* The tree the tokens stand for. Parse(i) reads one soup starting at i.    *)

RECURSIVE Parse(_, _), ParseSoups(_, _)
\* <<items, next>>: next is the position of the terminator ("," or ")" or end)
Parse(i, acc) ==
  IF i > Len(toks) THEN <<acc, i>>
  ELSE IF toks[i] \in {",", ")"} THEN <<acc, i>>
  ELSE IF toks[i] \in Openers THEN
       LET r == ParseSoups(i + 1, <<>>) IN Parse(r[2] + 1, Append(acc, [k |-> toks[i], s |-> r[1]]))
  ELSE Parse(i + 1, Append(acc, [k |-> toks[i], s |-> <<>>]))
ParseSoups(i, acc) ==
  LET r == Parse(i, <<>>) IN
  IF r[2] <= Len(toks) /\ toks[r[2]] = "," THEN ParseSoups(r[2] + 1, Append(acc, r[1]))
  ELSE <<Append(acc, r[1]), r[2]>>

SoupAt(i) == Parse(i, <<>>)[1]

(* A soup has a parameter of its own if it contains an anaphor directly or  *)
(* an operator lacks an operand.                                            *)
LoneOp(s) == Len(s) = 1 /\ s[1].k = "op"   \* stands for the operator's function

OwnParam(s) == IF LoneOp(s) THEN FALSE ELSE
  \/ \E i \in 1..Len(s) : s[i].k \in {"_", "_0", "_1", "_2"}
  \/ s[1].k = "op" \/ s[Len(s)].k = "op"
  \/ \E i \in 1..(Len(s) - 1) : s[i].k = "op" /\ s[i + 1].k = "op"

----------------------------------------------------------------------------
(* Reading *)

NoScope == [on |-> FALSE, kinds |-> {}, n |-> 0, max |-> -1]

Use(sc, t) == \* the scope after meeting one more anaphor
  CASE t = "_"  -> [sc EXCEPT !.kinds = @ \cup {"anon"}, !.n = @ + 1]
    [] t = "h"  -> [sc EXCEPT !.kinds = @ \cup {"sec"}, !.n = @ + 1]
    [] OTHER    -> LET i == CASE t \in {"_0", "b0"} -> 0 [] t \in {"_1", "b1"} -> 1 [] OTHER -> 2
                   IN [sc EXCEPT !.kinds = @ \cup {"num"}, !.max = IF i > @ THEN i ELSE @]

Arity(sc) == IF "num" \in sc.kinds THEN sc.max + 1 ELSE sc.n
Mixed(sc) == Cardinality(sc.kinds) > 1

\* the name of the parameter just used
ParamName(sc, t, pre) ==
  IF t \in {"_", "h", "b"} THEN pre \o ToString(sc.n)
  ELSE pre \o (CASE t \in {"_0", "b0"} -> "1" [] t \in {"_1", "b1"} -> "2" [] OTHER -> "3")

Frame(t, own) == [k |-> t, own |-> own, lone |-> FALSE, inner |-> bullets.kinds # {}, items |-> <<>>, soups |-> <<>>, srcs |-> <<>>, src |-> ""]
F == Last(stack)

(* items are strings; "op" and "cat" are kept as themselves *)
RECURSIVE FoldOp(_, _), SplitCat(_, _), FoldCat(_, _)
FoldOp(acc, s) == IF s = <<>> THEN acc ELSE FoldOp("(" \o acc \o " op " \o s[2] \o ")", SubSeq(s, 3, Len(s)))
SplitCat(s, cur) == IF s = <<>> THEN <<cur>>
                    ELSE IF Head(s) = "cat" THEN <<cur>> \o SplitCat(Tail(s), <<>>)
                    ELSE SplitCat(Tail(s), Append(cur, Head(s)))
FoldCat(acc, gs) == IF gs = <<>> THEN acc ELSE FoldCat("(" \o acc \o " cat " \o Head(gs) \o ")", Tail(gs))
SoupText(items) ==
  LET gs == SplitCat(items, <<>>)
      ts == [i \in 1..Len(gs) |-> FoldOp(gs[i][1], SubSeq(gs[i], 2, Len(gs[i])))]
  IN FoldCat(ts[1], SubSeq(ts, 2, Len(ts)))

Lam(n, t) == IF n = 0 THEN t ELSE "<" \o ToString(n) \o " " \o t \o ">"

PrevIsOp == IF F.items = <<>> THEN TRUE ELSE Last(F.items) = "op"

\* items with whatever is needed before a token with the given left side
Filling(isOp) == IF PrevIsOp /\ isOp THEN "hole" ELSE IF ~PrevIsOp /\ ~isOp THEN "cat" ELSE "none"

Put(fr, item, text) == [fr EXCEPT !.items = Append(@, item), !.src = @ \o " " \o text]
SetTop(fr) == [stack EXCEPT ![Len(stack)] = fr]

AddValue(item, text) ==
  LET pre == IF Filling(FALSE) = "cat" THEN [F EXCEPT !.items = Append(@, "cat")] ELSE F
  IN  stack' = SetTop(Put(pre, item, text))

Text(t) == CASE t = "b" -> "•" [] t = "b0" -> "•0" [] t = "b1" -> "•1" [] OTHER -> t

Begin ==
  /\ phase = "write" /\ open = <<>> /\ ~SoupEmpty /\ Len(toks) >= MinLen
  /\ phase' = "read" /\ pos' = 1
  /\ LET own == OwnParam(SoupAt(1)) IN
     /\ stack' = <<Frame("start", own)>>
     /\ scope' = [NoScope EXCEPT !.on = own]
  /\ UNCHANGED <<toks, open, bullets, nv, result>>

Tok == toks[pos]
Reading == phase = "read" /\ pos <= Len(toks)

ReadValue ==
  /\ Reading /\ Tok \in Values
  /\ pos' = pos + 1
  /\ CASE Tok = "v" ->
            /\ nv' = nv + 1
            /\ AddValue("v" \o ToString(nv + 1), "v" \o ToString(nv + 1))
            /\ UNCHANGED <<scope, bullets>>
       [] Tok \in {"x", "y"} ->
            /\ AddValue(IF Tok = "x" THEN "b1" ELSE "b2", Tok)
            /\ UNCHANGED <<scope, bullets, nv>>
       [] Tok \in {"b", "b0", "b1"} ->
            LET s == Use(bullets, IF Tok = "b" THEN "_" ELSE Tok) IN
            /\ bullets' = s
            /\ AddValue(ParamName(s, Tok, "b"), Text(Tok))
            /\ UNCHANGED <<scope, nv>>
       [] OTHER ->
            LET s == Use(scope, Tok) IN
            /\ scope' = s
            /\ AddValue(ParamName(s, Tok, "p"), Tok)
            /\ UNCHANGED <<bullets, nv>>
  /\ UNCHANGED <<phase, toks, open, result>>

ReadOp ==
  /\ Reading /\ Tok = "op"
  /\ pos' = pos + 1
  /\ IF F.items = <<>> /\ (IF pos = Len(toks) THEN TRUE ELSE toks[pos + 1] \in {",", ")"})
     THEN /\ stack' = SetTop([Put(F, "<2 (p1 op p2)>", "⊞") EXCEPT !.lone = TRUE])
          /\ UNCHANGED scope
     ELSE IF Filling(TRUE) = "hole"
     THEN LET s == Use(scope, "h") IN
          /\ scope' = s
          /\ stack' = SetTop([F EXCEPT !.items = @ \o <<ParamName(s, "h", "p"), "op">>, !.src = @ \o " ⊞"])
     ELSE /\ stack' = SetTop(Put(F, "op", "⊞")) /\ UNCHANGED scope
  /\ UNCHANGED <<phase, toks, open, bullets, nv, result>>

ReadOpen ==
  /\ Reading /\ Tok \in Openers
  /\ pos' = pos + 1
  /\ LET own == ~scope.on /\ OwnParam(SoupAt(pos + 1)) IN
     /\ stack' = Append(stack, Frame(Tok, own))
     /\ scope' = IF own THEN [NoScope EXCEPT !.on = TRUE] ELSE scope
  \* the bullets of d1, d2 are written with it
  /\ UNCHANGED <<phase, toks, open, bullets, nv, result>>

\* the soup on top of the stack is complete: its text, its arity, the scope left
Done ==
  LET hole == PrevIsOp
      s    == IF hole THEN Use(scope, "h") ELSE scope
      its  == IF hole THEN Append(F.items, ParamName(s, "h", "p")) ELSE F.items
      n    == IF F.own THEN Arity(s) ELSE 0
  IN  [text |-> Lam(n, SoupText(its)), n |-> IF F.lone THEN 2 ELSE n, bad |-> F.own /\ Mixed(s),
       scope |-> IF F.own THEN NoScope ELSE s]

Fail == phase' = "done" /\ result' = [src |-> "", shown |-> "mixed", n |-> 0]
        /\ UNCHANGED <<toks, open, pos, stack, scope, bullets, nv>>

ReadComma ==
  /\ Reading /\ Tok = ","
  /\ IF Done.bad THEN Fail
     ELSE LET own == ~Done.scope.on /\ OwnParam(SoupAt(pos + 1)) IN
          /\ stack' = SetTop([F EXCEPT !.own = own, !.lone = FALSE, !.items = <<>>, !.src = "",
                                       !.soups = Append(@, [text |-> Done.text, n |-> Done.n]),
                                       !.srcs = Append(@, F.src)])
          /\ scope' = IF own THEN [NoScope EXCEPT !.on = TRUE] ELSE Done.scope
          /\ pos' = pos + 1
          /\ UNCHANGED <<phase, toks, open, bullets, nv, result>>

Glyph(n) == CASE n = 0 -> "∇" [] n = 1 -> "∆" [] n = 2 -> "⊽" [] OTHER -> "⊼"
Below == stack[Len(stack) - 1]

ReadClose ==
  /\ Reading /\ Tok = ")"
  /\ LET sp   == Append(F.soups, [text |-> Done.text, n |-> Done.n])
         ss   == Append(F.srcs, F.src)
         two  == Len(sp) = 2
         nb   == CASE F.k = "{" -> IF bullets.kinds = {} THEN 0 ELSE Arity(bullets)
                   [] F.k = "d1" -> 1 [] F.k = "d2" -> 2 [] OTHER -> 0
         bad  == Done.bad \/ (F.k = "{" /\ Mixed(bullets))
         body == sp[1].text \o (IF two THEN "," \o sp[2].text ELSE "")
         mark == Glyph(sp[1].n) \o (IF two THEN Glyph(sp[2].n) ELSE "")
         shown == CASE F.k = "(" -> sp[1].text
                    [] F.k = "f(" -> "f(" \o body \o ")"
                    [] F.k = "[" -> "[" \o body \o "]"
                    [] F.k = "{" -> Lam(nb, "{" \o body \o "}")
                    [] OTHER -> Lam(nb, sp[1].text)
         text == CASE F.k = "(" -> "(" \o ss[1] \o " )" \o (IF sp[1].n = 0 THEN "" ELSE " ⊛" \o mark)
                   [] F.k = "f(" -> "f" \o ToString(Len(sp)) \o "(" \o ss[1] \o (IF two THEN "," \o ss[2] ELSE "") \o " ) ⊙" \o mark
                   [] F.k = "[" -> "[" \o ss[1] \o (IF two THEN "," \o ss[2] ELSE "") \o " ] ⊡" \o mark
                   [] F.k = "{" -> "{ k1:" \o ss[1] \o (IF two THEN " k2:" \o ss[2] ELSE "") \o " } ⊟" \o Glyph(nb) \o mark
                   [] F.k = "d1" -> "({ x: • }.(" \o ss[1] \o " )) ⊠" \o Glyph(1) \o mark
                   [] OTHER -> "({ x: • y: • }.(" \o ss[1] \o " )) ⊠" \o Glyph(2) \o mark
         pre  == IF Below.items = <<>> THEN TRUE ELSE Last(Below.items) = "op"
         b1   == IF pre THEN Below ELSE [Below EXCEPT !.items = Append(@, "cat")]
     IN IF bad THEN Fail
        ELSE /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), Put(b1, shown, text))
             /\ scope' = Done.scope
             /\ bullets' = IF F.k = "{" THEN NoScope ELSE bullets
             /\ pos' = pos + 1
             /\ UNCHANGED <<phase, toks, open, nv, result>>

ReadEnd ==
  /\ phase = "read" /\ pos > Len(toks)
  /\ IF Done.bad THEN Fail
     ELSE /\ phase' = "done"
          /\ result' = [src |-> F.src, shown |-> Done.text, n |-> Done.n]
          /\ UNCHANGED <<toks, open, pos, stack, scope, bullets, nv>>

Init == /\ phase = "write" /\ toks = <<>> /\ open = <<>> /\ pos = 0 /\ stack = <<>>
        /\ scope = NoScope /\ bullets = NoScope /\ nv = 0 /\ result = [src |-> "", shown |-> "", n |-> 0]

Next == (\E t \in Kinds : Write(t)) \/ CloseGroup \/ Begin \/ ReadValue \/ ReadOp \/ ReadOpen \/ ReadComma \/ ReadClose \/ ReadEnd

----------------------------------------------------------------------------
(* The compositional meaning: free anaphora of a soup, in order.            *)

RECURSIVE Free(_), FreeAll(_)
\* anaphora of soup s that belong to the scope s is in, when one is open
Free(s) ==
  IF s = <<>> \/ LoneOp(s) THEN <<>> ELSE
  LET gap(i) == IF (IF i = 1 THEN TRUE ELSE s[i - 1].k = "op") /\ (IF i > Len(s) THEN TRUE ELSE s[i].k = "op") THEN <<"h">> ELSE <<>>
      at(i)  == IF s[i].k \in {"_", "_0", "_1", "_2"} THEN <<s[i].k>>
                ELSE IF s[i].k \in Openers THEN FreeAll(s[i].s) ELSE <<>>
      f[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o gap(i) \o at(i)
  IN f[Len(s)] \o gap(Len(s) + 1)
FreeAll(ss) == IF ss = <<>> THEN <<>> ELSE Free(Head(ss)) \o FreeAll(Tail(ss))

KindOf(t) == CASE t = "_" -> "anon" [] t = "h" -> "sec" [] OTHER -> "num"
Num(t) == CASE t = "_0" -> 1 [] t = "_1" -> 2 [] OTHER -> 3
MaxNum(fs) == LET S == {Num(fs[i]) : i \in {j \in 1..Len(fs) : KindOf(fs[j]) = "num"}}
              IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m

\* arity of the function soup s becomes, on its own
Params(s) == IF LoneOp(s) THEN 2 ELSE IF ~OwnParam(s) THEN 0
             ELSE LET fs == Free(s) IN IF MaxNum(fs) > 0 THEN MaxNum(fs) ELSE Len(fs)

ReaderAgrees ==
  phase = "done" =>
    LET s  == SoupAt(1)
        fs == Free(s)
    IN IF OwnParam(s)
       THEN IF Cardinality({KindOf(fs[i]) : i \in 1..Len(fs)}) > 1
            THEN result.shown = "mixed"
            ELSE result.shown # "mixed" => result.n = Params(s)
       ELSE result.shown # "mixed" => result.n = Params(s)

ScopesClose == phase = "done" /\ result.shown # "mixed" => (F.own => scope.on) /\ bullets = NoScope /\ Len(stack) = 1

SmallArity == result.n <= 3 /\ scope.n <= 3 /\ bullets.n <= 3

Emit == phase = "done" =>
  PrintT("@@" \o ToJson([t |-> toks, s |-> result.src, e |-> result.shown, n |-> result.n]))
=============================================================================
