-------------------------------- MODULE Types --------------------------------
(* Type literals and contracts. A type is drawn as a tree; it determines    *)
(*   Text  - the ways to write it: precedence, redundant parentheses, both  *)
(*           arrows and ellipses, white space;                              *)
(*   Data  - the tagged list that `to-data` owes for every way of writing;  *)
(*   Str   - the canonical text (of the list, and of the literal itself),   *)
(*           which reads back as the same type;                             *)
(*   Walk  - for a value, the violations in order and where a value that    *)
(*           raises is forced. Nothing the type does not name is forced.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth,     \* nesting of types
          Mode       \* "text": any type, any writing; "value": a type and a value

VARIABLES phase, seed, case
vars == <<phase, seed, case>>

(* ---- choices: a seed names one draw; Sub(s, k) is its k-th child ---- *)
Sub(s, k) == << (171 * s[1] + 1123 * k + 7) % 30269,
                (172 * s[2] + 3571 * k + 11) % 30307 >>
Num(s, n) == ((s[1] + 3 * s[2]) % 30323) % n
Of(s, seq) == seq[1 + Num(s, Len(seq))]
RECURSIVE Fold(_, _)
Fold(ss, n) == IF n = 0 THEN "" ELSE Fold(ss, n - 1) \o ss[n]
Cat(ss0) == CHOOSE v \in { Fold(ss, Len(ss)) : ss \in {TLCEval(ss0)} } : TRUE
RECURSIVE Joined(_, _, _)
Joined(ss, sep, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN ss[1] ELSE Joined(ss, sep, n - 1) \o sep \o ss[n]
Join(ss0, sep) == CHOOSE v \in { Joined(ss, sep, Len(ss)) : ss \in {TLCEval(ss0)} } : TRUE
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Range(sq) == { sq[i] : i \in 1..Len(sq) }

(* ---- types ---- *)
Prims == << "number", "string", "symbol", "bool", "null", "datetime", "any", "top", "never",
            "set", "vec", "array", "error" >>
Common == << "number", "string", "symbol", "bool", "null", "datetime" >>
Vars == << "a", "b", "m", "t1", "row-x", "Person", "forallx", "numbers", "IOx" >>
\* field names in the order a record keeps them
Fields == << "B1", "_q", "a", "a-b", "a2", "b", "nullx", "x_y" >>
FieldPick == << 1, 3, 4, 5, 6, 7, 8 >>
\* literal strings; %q a double quote, %b a backslash
LitStrs == << "x", "", "read", "two words", "%q", "%b", "a%b%bb%qc", "x%bn", "{y}", "$1 | ..." >>
LitSyms == << "a", "read", "k-1", "number", "forall", "IO", "NonEmpty", "x_y" >>
Kinds == << "", "", "* -> *", "(* -> *) -> *", "* -> * -> *" >>
KindShown == [ k \in Range(Kinds) |-> CASE k = "* -> *" -> "* %a *" [] k = "(* -> *) -> *" -> "(* %a *) %a *"
                                        [] k = "* -> * -> *" -> "* %a * %a *" [] OTHER -> "" ]

RECURSIVE Rec(_, _, _, _)
RECURSIVE Type(_, _)
Types(s, d, lo, hi) == TLCEval([ i \in 1..(lo + Num(Sub(s, 90), hi - lo + 1)) |-> Type(Sub(s, i), d) ])
\* fields at increasing places
Rec(s, d, from, n) ==
    IF n = 0 \/ from > Len(FieldPick) THEN <<>>
    ELSE LET at == from + Num(Sub(s, 1), 3)
         IN IF at > Len(FieldPick) THEN <<>>
            ELSE << [n |-> Fields[FieldPick[at]], opt |-> Num(Sub(s, 2), 3) = 0, t |-> Type(Sub(s, 3), d)] >>
                 \o Rec(Sub(s, 4), d, at + 1, n - 1)
Leaf(s) ==
    CASE Num(Sub(s, 1), 14) < 7 -> [k |-> "prim", n |-> IF Mode = "value" /\ Num(Sub(s, 2), 5) # 0 THEN Of(Sub(s, 3), Common) ELSE Of(Sub(s, 3), Prims)]
      [] Num(Sub(s, 1), 14) < 9 -> [k |-> "var", n |-> Of(Sub(s, 3), Vars)]
      [] Num(Sub(s, 1), 14) < 11 -> [k |-> "sym", n |-> Of(Sub(s, 3), LitSyms)]
      [] Num(Sub(s, 1), 14) < 13 -> [k |-> "str", n |-> Of(Sub(s, 3), LitStrs)]
      [] OTHER -> [k |-> "block"]
Shapes == IF Mode = "text"
    THEN << "leaf", "list", "plist", "tuple", "rec", "union", "union", "partial", "fn", "fn", "app", "app", "con", "forall" >>
    ELSE << "leaf", "leaf", "list", "list", "plist", "tuple", "rec", "rec", "rec", "union", "union", "partial", "fn", "con", "forall", "app" >>
Type(s, d) ==
    LET k == IF d = 0 THEN "leaf" ELSE Of(Sub(s, 0), Shapes)
    IN CASE k = "leaf" -> Leaf(s)
         [] k = "list" -> [k |-> "list", a |-> Type(Sub(s, 1), d - 1)]
         [] k = "plist" -> [k |-> "plist", ts |-> Types(Sub(s, 1), d - 1, 0, 2), a |-> Type(Sub(s, 2), d - 1)]
         [] k = "tuple" -> [k |-> "tuple", ts |-> Types(Sub(s, 1), d - 1, 1, 3)]
         [] k = "rec" -> [k |-> "rec", fs |-> Rec(Sub(s, 1), d - 1, 1, Num(Sub(s, 2), 4)), open |-> Of(Sub(s, 3), << "", "", "..", "r", "r,..", "r,s" >>)]
         [] k = "union" -> [k |-> "union", ts |-> IF Num(Sub(s, 3), 5) = 0
                                 THEN LET two == << [k |-> "prim", n |-> "error"], Type(Sub(s, 1), d - 1) >>
                                      IN IF Num(Sub(s, 4), 2) = 0 THEN two ELSE << two[2], two[1] >>
                                 ELSE Types(Sub(s, 1), d - 1, 2, 3)]
         [] k = "partial" -> [k |-> "partial", a |-> Type(Sub(s, 1), d - 1)]
         [] k = "fn" -> [k |-> "fn", a |-> Type(Sub(s, 1), d - 1), b |-> Type(Sub(s, 2), d - 1)]
         [] k = "app" -> [k |-> "app", a |-> IF Num(Sub(s, 3), 2) = 0 THEN [k |-> "var", n |-> Of(Sub(s, 4), Vars)] ELSE Type(Sub(s, 1), d - 1),
                          b |-> Type(Sub(s, 2), d - 1)]
         [] k = "con" -> [k |-> "con", n |-> Of(Sub(s, 3), << "IO", "Dict", "NonEmpty", "Lens", "Traversal" >>),
                          a |-> Type(Sub(s, 1), d - 1), b |-> Type(Sub(s, 2), d - 1)]
         [] k = "forall" -> [k |-> "forall", vs |-> TLCEval([ i \in 1..(1 + Num(Sub(s, 3), 3)) |->
                                    [n |-> <<"x", "y", "z-1">>[i], kind |-> Of(Sub(s, 10 + i), Kinds)] ]),
                             a |-> Type(Sub(s, 1), d - 1)]

IsError(t) == t.k = "prim" /\ t.n = "error"
\* a union of two with an error on either side is a partial type
AsPartial(t) == t.k = "partial" \/ (t.k = "union" /\ Len(t.ts) = 2 /\ (IsError(t.ts[1]) \/ IsError(t.ts[2])))
Inner(t) == IF t.k = "partial" THEN t.a ELSE IF IsError(t.ts[2]) THEN t.ts[1] ELSE t.ts[2]
IsUnion(t) == t.k = "union" /\ ~AsPartial(t)
Juxtaposed(t) == t.k = "app"
RECURSIVE Members(_)
Members(t) == IF IsUnion(t) THEN Flat(TLCEval([ i \in 1..Len(t.ts) |-> Members(t.ts[i]) ])) ELSE <<t>>

(* ---- the tagged list ---- *)
Y(n) == [y |-> n]
L(sq) == [l |-> sq]
RECURSIVE Data(_)
Datas(ts) == TLCEval([ i \in 1..Len(ts) |-> Data(ts[i]) ])
Data(t) ==
    CASE t.k = "prim" -> L(<<Y("t-prim"), Y(t.n)>>)
      [] t.k = "var" -> L(<<Y("t-var"), Y(t.n)>>)
      [] t.k = "sym" -> L(<<Y("t-lit-sym"), Y(t.n)>>)
      [] t.k = "str" -> L(<<Y("t-lit-str"), [s |-> t.n]>>)
      [] t.k = "block" -> L(<<Y("t-record"), [b |-> <<>>], [t |-> TRUE]>>)
      [] t.k = "list" -> L(<<Y("t-list"), Data(t.a)>>)
      [] t.k = "plist" -> IF t.ts = <<>> THEN L(<<Y("t-list"), Data(t.a)>>)
                          ELSE L(<<Y("t-prefix-list"), L(Datas(t.ts)), Data(t.a)>>)
      [] t.k = "tuple" -> L(<<Y("t-tuple")>> \o Datas(t.ts))
      [] t.k = "rec" -> L(<<Y("t-record"),
             [b |-> TLCEval([ i \in 1..Len(t.fs) |-> << t.fs[i].n, L(<<Y("t-field"), Y(IF t.fs[i].opt THEN "optional" ELSE "required"), Data(t.fs[i].t)>>) >> ])],
             [t |-> t.open # ""]>>)
      [] AsPartial(t) -> L(<<Y("t-partial"), Data(Inner(t))>>)
      [] t.k = "union" -> L(<<Y("t-union")>> \o Datas(Members(t)))
      [] t.k = "fn" -> L(<<Y("t-fn"), Data(t.a), Data(t.b)>>)
      [] t.k = "app" -> L(<<Y("t-app"), Data(t.a), Data(t.b)>>)
      [] t.k = "con" -> IF t.n \in {"Lens", "Traversal"}
                        THEN L(<<Y("t-app"), L(<<Y("t-app"), L(<<Y("t-con"), Y(t.n)>>), Data(t.a)>>), Data(t.b)>>)
                        ELSE L(<<Y("t-app"), L(<<Y("t-con"), Y(t.n)>>), Data(t.a)>>)
      [] t.k = "forall" -> L(<<Y("t-forall"), IF Len(t.vs) = 1 THEN Y(t.vs[1].n) ELSE L(TLCEval([ i \in 1..Len(t.vs) |-> Y(t.vs[i].n) ])), Data(t.a)>>)

(* ---- canonical text: of the list (whole = FALSE), of the literal (TRUE) ---- *)
\* %a an arrow, %e an ellipsis
RECURSIVE Esc(_)
Esc(n) == CASE n = "%q" -> "%b%q" [] n = "%b" -> "%b%b" [] n = "a%b%bb%qc" -> "a%b%b%b%bb%b%qc"
            [] n = "x%bn" -> "x%b%bn" [] OTHER -> n
RECURSIVE Str(_, _)
Strs(ts, w) == TLCEval([ i \in 1..Len(ts) |-> Str(ts[i], w) ])
Wrap(c, x) == IF c THEN "(" \o x \o ")" ELSE x
Loose(t) == t.k = "fn" \/ t.k = "forall" \/ IsUnion(t)
Str(t, w) ==
    CASE t.k = "prim" -> IF t.n = "error" THEN "ExecutionError" ELSE t.n
      [] t.k = "var" -> t.n
      [] t.k = "sym" -> ":" \o t.n
      [] t.k = "str" -> "%q" \o Esc(t.n) \o "%q"
      [] t.k = "block" -> "{..}"
      [] t.k = "list" -> "[" \o Str(t.a, w) \o "]"
      [] t.k = "plist" -> IF t.ts = <<>> THEN "[" \o Str(t.a, w) \o "]"
                          ELSE "[" \o Join(Strs(t.ts, w), ", ") \o ", " \o Str(t.a, w) \o "%e]"
      [] t.k = "tuple" -> "(" \o Join(Strs(t.ts, w), ", ") \o (IF Len(t.ts) = 1 THEN ",)" ELSE ")")
      [] t.k = "rec" -> "{" \o Join(TLCEval([ i \in 1..Len(t.fs) |-> t.fs[i].n \o (IF t.fs[i].opt THEN "?: " ELSE ": ") \o Str(t.fs[i].t, w) ])
                                     \o (CASE t.open = "" -> <<>>
                                           [] w /\ t.open = "r" -> <<"..r">>
                                           [] w /\ t.open = "r,.." -> <<"..r", "..">>
                                           [] w /\ t.open = "r,s" -> <<"..r", "..s">>
                                           [] OTHER -> <<"..">>), ", ") \o "}"
      [] AsPartial(t) -> Wrap(Loose(Inner(t)), Str(Inner(t), w)) \o "?"
      [] t.k = "union" -> LET ms == Members(t) IN Join(TLCEval([ i \in 1..Len(ms) |-> Wrap(ms[i].k = "forall", Str(ms[i], w)) ]), " | ")
      [] t.k = "fn" -> Wrap(Loose(t.a) \/ AsPartial(t.a), Str(t.a, w)) \o " %a "
                       \o Wrap(IF w THEN t.b.k \in {"forall", "union", "partial"} ELSE Loose(t.b) \/ AsPartial(t.b), Str(t.b, w))
      [] t.k = "app" -> Wrap(Loose(t.a), Str(t.a, w)) \o " " \o Wrap(Loose(t.b) \/ AsPartial(t.b) \/ Juxtaposed(t.b), Str(t.b, w))
      [] t.k = "con" -> CASE t.n = "NonEmpty" -> "NonEmpty([" \o Str(t.a, w) \o "])"
                          [] t.n \in {"Lens", "Traversal"} -> t.n \o "(" \o Str(t.a, w) \o ", " \o Str(t.b, w) \o ")"
                          [] OTHER -> t.n \o "(" \o Str(t.a, w) \o ")"
      [] t.k = "forall" -> "forall " \o Join(TLCEval([ i \in 1..Len(t.vs) |->
                               IF w /\ t.vs[i].kind # "" THEN "(" \o t.vs[i].n \o " :: " \o KindShown[t.vs[i].kind] \o ")" ELSE t.vs[i].n ]), " ")
                           \o ". " \o Str(t.a, w)

\* a backslash may stand for itself before a character it does not escape
Written(n, s) == IF n = "x%bn" /\ Num(Sub(s, 3), 2) = 0 THEN n ELSE Esc(n)

(* ---- the ways to write it: tokens, with where a space must be ---- *)
W(x) == [c |-> "w", x |-> x]          \* a word
P(x) == [c |-> "p", x |-> x]          \* punctuation
Arrow(s) == IF Num(s, 2) = 0 THEN P("%a") ELSE [c |-> "-", x |-> "->"]
Colon == [c |-> ":", x |-> ":"]
Level(t) == CASE t.k = "forall" -> 0 [] t.k = "union" -> 1 [] t.k = "fn" -> 2 [] t.k \in {"app", "partial"} -> 3 [] OTHER -> 4
RECURSIVE Toks(_, _, _)
RECURSIVE Sep(_, _)
Sep(tss, sep) == IF tss = <<>> THEN <<>> ELSE IF Len(tss) = 1 THEN tss[1] ELSE tss[1] \o sep \o Sep(Tail(tss), sep)
Body(t, s) ==
    CASE t.k = "prim" -> <<W(IF t.n = "error" THEN "ExecutionError" ELSE t.n)>>
      [] t.k = "var" -> <<W(t.n)>>
      [] t.k = "sym" -> <<Colon, W(t.n)>>
      [] t.k = "str" -> <<P("%q" \o Written(t.n, s) \o "%q")>>
      [] t.k = "block" -> <<W("block")>>
      [] t.k = "list" -> <<P("[")>> \o Toks(t.a, Sub(s, 1), 0) \o <<P("]")>>
      [] t.k = "plist" -> <<P("[")>> \o Sep(TLCEval([ i \in 1..Len(t.ts) |-> Toks(t.ts[i], Sub(s, 10 + i), 0) ]) \o <<Toks(t.a, Sub(s, 1), 0)>>, <<P(",")>>)
                          \o <<P(IF Num(Sub(s, 2), 2) = 0 THEN "%e" ELSE "..."), P("]")>>
      [] t.k = "tuple" -> <<P("(")>> \o Sep(TLCEval([ i \in 1..Len(t.ts) |-> Toks(t.ts[i], Sub(s, 10 + i), 0) ]), <<P(",")>>)
                          \o (IF Len(t.ts) = 1 \/ Num(Sub(s, 2), 3) = 0 THEN <<P(","), P(")")>> ELSE <<P(")")>>)
      [] t.k = "rec" -> <<P("{")>> \o Sep(TLCEval([ i \in 1..Len(t.fs) |->
                              LET j == IF Num(Sub(s, 5), 2) = 0 THEN i ELSE Len(t.fs) + 1 - i
                              IN <<W(t.fs[j].n)>> \o (IF t.fs[j].opt THEN <<P("?")>> ELSE <<>>) \o <<Colon>> \o Toks(t.fs[j].t, Sub(s, 10 + i), 0) ])
                          \o (CASE t.open = "" -> <<>> [] t.open = ".." -> << <<P("..")>> >>
                                [] t.open = "r" -> << <<P(".."), W("r")>> >>
                                [] t.open = "r,s" -> << <<P(".."), W("r")>>, <<P(".."), W("s")>> >> [] OTHER -> << <<P(".."), W("r")>>, <<P("..")>> >>), <<P(",")>>)
                        \o <<P("}")>>
      [] t.k = "union" -> Sep(TLCEval([ i \in 1..Len(t.ts) |-> Toks(t.ts[i], Sub(s, 10 + i), 2) ]), <<P("|")>>)
      [] t.k = "partial" -> Toks(t.a, Sub(s, 1), 3) \o <<P("?")>>
      [] t.k = "fn" -> Toks(t.a, Sub(s, 1), 3) \o <<Arrow(Sub(s, 3))>> \o Toks(t.b, Sub(s, 2), 2)
      [] t.k = "app" -> Toks(t.a, Sub(s, 1), 3) \o Toks(t.b, Sub(s, 2), 4)
      [] t.k = "con" -> <<W(t.n), P("(")>> \o (CASE t.n = "NonEmpty" -> <<P("[")>> \o Toks(t.a, Sub(s, 1), 0) \o <<P("]")>>
                              [] t.n \in {"Lens", "Traversal"} -> Toks(t.a, Sub(s, 1), 0) \o <<P(",")>> \o Toks(t.b, Sub(s, 2), 0)
                              [] OTHER -> Toks(t.a, Sub(s, 1), 0)) \o <<P(")")>>
      [] t.k = "forall" -> <<W("forall")>> \o Flat(TLCEval([ i \in 1..Len(t.vs) |->
                               IF t.vs[i].kind = "" /\ Num(Sub(s, 20 + i), 3) # 0 THEN <<W(t.vs[i].n)>>
                               ELSE <<P("("), W(t.vs[i].n), P("::"), P(IF t.vs[i].kind = "" THEN "*" ELSE t.vs[i].kind), P(")")>> ]))
                           \o <<P(".")>> \o Toks(t.a, Sub(s, 1), 0)
Toks(t, s, lvl) == IF Level(t) < lvl \/ Num(Sub(s, 99), 9) = 0 THEN <<P("(")>> \o Body(t, Sub(s, 7)) \o <<P(")")>> ELSE Body(t, s)

Apart(a, b) == \/ a.c = "w" /\ b.c \in {"w", "-"}
               \/ a.c = ":" /\ b.c = ":"
Space(a, b, s) == IF Apart(a, b) \/ Num(Sub(s, 1), 2) = 0 THEN Of(Sub(s, 2), <<" ", " ", "  ">>) ELSE ""
Text(t, s) == CHOOSE v \in { Cat([ i \in 1..Len(ts) |-> ts[i].x \o (IF i = Len(ts) THEN "" ELSE Space(ts[i], ts[i + 1], Sub(s, 1000 + i))) ])
                              : ts \in {TLCEval(Toks(t, s, 0))} } : TRUE

(* ---- values ---- *)
Date == "2020-02-03T04:05:06Z"
RECURSIVE AnyVal(_, _)
RECURSIVE For(_, _, _)
AnyVal(s, d) ==
    LET k == Num(Sub(s, 1), IF d = 0 THEN 9 ELSE 12)
    IN CASE k = 0 -> [k |-> "num", n |-> Num(Sub(s, 2), 100)]
         [] k = 1 -> [k |-> "str", n |-> Of(Sub(s, 2), LitStrs)]
         [] k = 2 -> [k |-> "sym", n |-> Of(Sub(s, 2), LitSyms)]
         [] k = 3 -> [k |-> "bool", n |-> Num(Sub(s, 2), 2) = 0]
         [] k = 4 -> [k |-> "null"]
         [] k = 5 -> [k |-> "date"]
         [] k = 6 -> [k |-> "fn"]
         [] k = 7 -> [k |-> "boom"]
         [] k = 8 -> [k |-> "type"]
         [] k \in {9, 10} -> [k |-> "list", vs |-> TLCEval([ i \in 1..Num(Sub(s, 2), 3) |-> AnyVal(Sub(s, 10 + i), d - 1) ])]
         [] OTHER -> [k |-> "blk", fs |-> TLCEval([ i \in 1..Num(Sub(s, 2), 3) |-> << Fields[FieldPick[2 * i]], AnyVal(Sub(s, 10 + i), d - 1) >> ])]
OfPrim(n, s) == CASE n = "number" -> [k |-> "num", n |-> Num(s, 100)] [] n = "string" -> [k |-> "str", n |-> Of(s, LitStrs)]
                  [] n = "symbol" -> [k |-> "sym", n |-> Of(s, LitSyms)] [] n = "bool" -> [k |-> "bool", n |-> Num(s, 2) = 0]
                  [] n = "null" -> [k |-> "null"] [] n = "datetime" -> [k |-> "date"] [] OTHER -> AnyVal(s, 1)
RECURSIVE Keep(_, _, _)
Keep(fs, s, d) ==
    IF fs = <<>> THEN <<>>
    ELSE (IF Num(Sub(s, 1), 8) = 0 \/ (fs[1].opt /\ Num(Sub(s, 2), 2) = 0) THEN <<>> ELSE << <<fs[1].n, For(fs[1].t, Sub(s, 3), d)>> >>)
         \o Keep(Tail(fs), Sub(s, 4), d)
Extra(s) == IF Num(Sub(s, 1), 4) = 0 THEN << <<Of(Sub(s, 2), <<"zz", "odd name", "q!">>), AnyVal(Sub(s, 3), 1)>> >> ELSE <<>>
Length(n, s) == IF Num(s, 7) = 0 THEN n + 1 ELSE IF n > 0 /\ Num(s, 7) = 1 THEN n - 1 ELSE n
For(t, s, d) ==
    IF Num(Sub(s, 50), 9) = 0 \/ d = 0 THEN AnyVal(Sub(s, 51), 2)
    ELSE CASE t.k = "prim" -> OfPrim(t.n, Sub(s, 2))
           [] t.k = "sym" -> IF Num(Sub(s, 1), 4) = 0 THEN [k |-> IF Num(Sub(s, 2), 2) = 0 THEN "str" ELSE "sym", n |-> "read"] ELSE [k |-> "sym", n |-> t.n]
           [] t.k = "str" -> IF Num(Sub(s, 1), 4) = 0 THEN [k |-> IF Num(Sub(s, 2), 2) = 0 THEN "str" ELSE "sym", n |-> "read"] ELSE [k |-> "str", n |-> t.n]
           [] t.k = "list" -> [k |-> "list", vs |-> TLCEval([ i \in 1..Num(Sub(s, 2), 4) |-> For(t.a, Sub(s, 10 + i), d - 1) ])]
           [] t.k = "plist" -> LET n == Len(t.ts)
                               IN [k |-> "list", vs |-> TLCEval([ i \in 1..Length(n, Sub(s, 2)) + Num(Sub(s, 3), 3) |->
                                                               IF i <= n THEN For(t.ts[i], Sub(s, 10 + i), d - 1) ELSE For(t.a, Sub(s, 10 + i), d - 1) ])]
           [] t.k = "tuple" -> [k |-> "list", vs |-> TLCEval([ i \in 1..Length(Len(t.ts), Sub(s, 2)) |->
                                                            IF i <= Len(t.ts) THEN For(t.ts[i], Sub(s, 10 + i), d - 1) ELSE AnyVal(Sub(s, 10 + i), 1) ])]
           [] t.k = "rec" -> LET fs == Keep(t.fs, Sub(s, 2), d - 1) \o Extra(Sub(s, 3))
                             IN [k |-> "blk", fs |-> IF Num(Sub(s, 4), 2) = 0 THEN fs ELSE TLCEval([ i \in 1..Len(fs) |-> fs[Len(fs) + 1 - i] ])]
           [] AsPartial(t) -> IF Num(Sub(s, 1), 3) = 0 THEN [k |-> "null"] ELSE For(Inner(t), Sub(s, 2), d - 1)
           [] t.k = "union" -> For(Of(Sub(s, 1), t.ts), Sub(s, 2), d - 1)
           [] t.k = "fn" -> [k |-> "fn"]
           [] t.k = "forall" -> For(t.a, Sub(s, 1), d - 1)
           [] OTHER -> AnyVal(Sub(s, 2), 2)

TypeName(v) == CASE v.k = "num" -> "number" [] v.k = "str" -> "string" [] v.k = "sym" -> "symbol" [] v.k = "bool" -> "bool"
                 [] v.k = "null" -> "null" [] v.k = "date" -> "datetime" [] v.k = "list" -> "list" [] v.k = "blk" -> "block"
                 [] v.k = "fn" -> "function" [] v.k = "type" -> "type-data" [] OTHER -> "boom"

(* ---- validation: a sequence of violations, ended by a raise ---- *)
Raise == [k |-> "raise"]
\* a mismatch says what it found, and so forces the value when it is read
Mismatch(t, p, v) == << [k |-> "type-mismatch", p |-> p, e |-> Str(t, FALSE), f |-> TypeName(v)] >>
Step(n) == IF n = "odd name" THEN "'odd name'" ELSE n
Key(p, n) == IF p = "" THEN Step(n) ELSE p \o "." \o Step(n)
Index(p, i) == p \o "[" \o ToString(i) \o "]"
RECURSIVE Until(_)      \* what is seen of events one after another
Until(es) == IF es = <<>> THEN <<>> ELSE IF es[1].k = "raise" THEN <<Raise>> ELSE <<es[1]>> \o Until(Tail(es))
RECURSIVE Walk(_, _, _)
RECURSIVE Branch(_, _, _, _)
Accepts(n) == n \in {"any", "top", "error", "set", "vec", "array"}
Has(v, n) == \E i \in 1..Len(v.fs) : v.fs[i][1] = n
Get(v, n) == v.fs[CHOOSE i \in 1..Len(v.fs) : v.fs[i][1] = n][2]
Branch(ts, p, v, t) ==
    IF ts = <<>> THEN Mismatch(t, p, v)
    ELSE LET es == TLCEval(Walk(ts[1], p, v))
         IN IF es = <<>> THEN <<>> ELSE IF es[1].k = "raise" THEN <<Raise>> ELSE Branch(Tail(ts), p, v, t)
Forcing(v, ok, t, p, more) == IF v.k = "boom" THEN <<Raise>> ELSE IF ok THEN more ELSE Mismatch(t, p, v)
Walk(t, p, v) ==
    CASE t.k = "prim" -> IF Accepts(t.n) THEN <<>>
                         ELSE IF t.n = "never" THEN Mismatch(t, p, v)
                         ELSE Forcing(v, TypeName(v) = t.n, t, p, <<>>)
      [] t.k = "sym" -> Forcing(v, v.k = "sym" /\ v.n = t.n, t, p, <<>>)
      [] t.k = "str" -> Forcing(v, v.k = "str" /\ v.n = t.n, t, p, <<>>)
      [] t.k = "list" -> Forcing(v, v.k = "list", t, p,
                             IF v.k # "list" THEN <<>> ELSE Until(Flat(TLCEval([ i \in 1..Len(v.vs) |-> Walk(t.a, Index(p, i - 1), v.vs[i]) ]))))
      [] t.k = "plist" /\ t.ts = <<>> -> Walk([k |-> "list", a |-> t.a], p, v)
      [] t.k = "plist" -> Forcing(v, v.k = "list", t, p,
                             IF v.k # "list" THEN <<>>
                             ELSE IF Len(v.vs) < Len(t.ts) THEN << [k |-> "length", p |-> p, e |-> Len(t.ts), f |-> Len(v.vs)] >>
                             ELSE Until(Flat(TLCEval([ i \in 1..Len(v.vs) |-> Walk(IF i <= Len(t.ts) THEN t.ts[i] ELSE t.a, Index(p, i - 1), v.vs[i]) ]))))
      [] t.k = "tuple" -> Forcing(v, v.k = "list", t, p,
                             IF v.k # "list" THEN <<>>
                             ELSE IF Len(v.vs) # Len(t.ts) THEN << [k |-> "length", p |-> p, e |-> Len(t.ts), f |-> Len(v.vs)] >>
                             ELSE Until(Flat(TLCEval([ i \in 1..Len(v.vs) |-> Walk(t.ts[i], Index(p, i - 1), v.vs[i]) ]))))
      [] t.k \in {"rec", "block"} ->
             Forcing(v, v.k = "blk", t, p,
                 IF v.k # "blk" \/ t.k = "block" THEN <<>>
                 ELSE LET seen == TLCEval([ i \in 1..Len(t.fs) |->
                                    IF Has(v, t.fs[i].n) THEN Walk(t.fs[i].t, Key(p, t.fs[i].n), Get(v, t.fs[i].n))
                                    ELSE IF t.fs[i].opt THEN <<>> ELSE << [k |-> "missing", p |-> p, e |-> t.fs[i].n, f |-> "absent"] >> ])
                          extra == SelectSeq(TLCEval([ i \in 1..Len(v.fs) |-> v.fs[i][1] ]), LAMBDA n : ~\E i \in 1..Len(t.fs) : t.fs[i].n = n)
                      IN Until(Flat(seen) \o (IF t.open # "" \/ extra = <<>> THEN <<>>
                                              ELSE << [k |-> "unexpected", p |-> p, e |-> "closed", f |-> extra] >>)))
      [] AsPartial(t) -> IF v.k = "boom" THEN <<Raise>> ELSE IF v.k = "null" THEN <<>> ELSE Walk(Inner(t), p, v)
      [] t.k = "union" -> Branch(Members(t), p, v, t)
      [] t.k = "fn" -> Forcing(v, v.k = "fn", t, p, <<>>)
      [] t.k = "forall" -> Walk(t.a, p, v)
      [] OTHER -> <<>>

\* what a reader of the whole report sees
Report(t, v) == LET es == Walk(t, "", v)
                IN IF \E i \in 1..Len(es) : es[i].k = "raise" \/ (es[i].k = "type-mismatch" /\ es[i].f = "boom") THEN <<Raise>> ELSE es
Conforms(t, v) == Walk(t, "", v) = <<>>

(* ---- cases ---- *)
Case(s) ==
    LET t == Type(Sub(s, 1), Depth)
    IN IF Mode = "text"
       THEN [text |-> Text(t, Sub(s, 2)), again |-> Text(t, Sub(s, 3)), data |-> Data(t), str |-> Str(t, FALSE), shown |-> Str(t, TRUE)]
       ELSE LET v == For(t, Sub(s, 4), Depth + 2)
            IN [text |-> Text(t, Sub(s, 2)), data |-> Data(t), str |-> Str(t, FALSE), v |-> v, report |-> Report(t, v)]

Init == phase = "start" /\ seed = <<0, 0>> /\ case = <<>>
Draw == /\ phase = "start" /\ \E x \in {RandomElement(1..30000)}, y \in {RandomElement(1..30000)} :
             \E c \in { Case(<<x, y>>) } : seed' = <<x, y>> /\ case' = c /\ PrintT("@@" \o ToJson(c))
        /\ phase' = "drawn"
Again == phase = "drawn" /\ phase' = "start" /\ UNCHANGED <<seed, case>>
Next == Draw \/ Again
Spec == Init /\ [][Next]_vars

(* ---- what the specification itself promises ---- *)
T == Type(Sub(seed, 1), Depth)
\* an erased or reordered writing is the same type; a canonical text is stable
SameData == phase = "drawn" => case.data = Data(T)
\* a type that accepts everything under it, accepts without forcing
AnyForcesNothing == (phase = "drawn" /\ Mode = "value") =>
    Walk([k |-> "rec", fs |-> <<[n |-> "a", opt |-> FALSE, t |-> [k |-> "prim", n |-> "any"]]>>, open |-> ".."], "",
         [k |-> "blk", fs |-> <<<<"a", [k |-> "boom"]>>, <<"zz", case.v>>>>]) = <<>>
\* partial is union with null for values; a union accepts what a member accepts alone
UnionLaw == (phase = "drawn" /\ Mode = "value" /\ T.k = "union" /\ ~AsPartial(T)) =>
    (Conforms(T, case.v) => \E i \in 1..Len(Members(T)) : Conforms(Members(T)[i], case.v))
\* opening a record only ever removes violations of surplus keys
OpenLaw == (phase = "drawn" /\ Mode = "value" /\ T.k = "rec" /\ case.v.k = "blk") =>
    Walk([T EXCEPT !.open = ".."], "", case.v) = SelectSeq(Walk(T, "", case.v), LAMBDA e : ~(e.k = "unexpected" /\ e.p = ""))
NothingAfterRaise == (phase = "drawn" /\ Mode = "value") =>
    LET es == Walk(T, "", case.v) IN \A i \in 1..Len(es) : es[i].k = "raise" => i = Len(es)
=============================================================================
