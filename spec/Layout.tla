------------------------------- MODULE Layout -------------------------------
(* Concrete syntax: a unit is drawn as a tree; the tree determines its      *)
(* tokens and the syntax tree the parser owes for them; white space and     *)
(* comments between tokens are free wherever the lexical grammar does not   *)
(* require or forbid them. Whatever the layout, the parser reads the same   *)
(* tree and keeps every character; the formatter, in each of its modes,     *)
(* changes layout only.                                                     *)
(* A damaged token sequence (a token dropped, doubled, replaced or moved,   *)
(* the text cut off) is still read without loss, whatever errors it has.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth,        \* nesting of brackets
          Decls,        \* declarations per unit or block
          Comments      \* one gap in Comments holds a comment (0: none)

VARIABLES phase, seed, case
vars == <<phase, seed, case>>

(* ---- choices: a seed names one draw; Sub(s, k) is its k-th child ---- *)
Sub(s, k) == << (171 * s[1] + 1123 * k + 7) % 30269,
                (172 * s[2] + 3571 * k + 11) % 30307 >>
Num(s, n) == ((s[1] + 3 * s[2]) % 30323) % n
Of(s, seq) == seq[1 + Num(s, Len(seq))]

RECURSIVE Join(_, _)
Join(ss, n) == IF n = 0 THEN "" ELSE Join(ss, n - 1) \o ss[n]
Cat(ss0) == CHOOSE v \in { Join(ss, Len(ss)) : ss \in {TLCEval(ss0)} } : TRUE

(* ---- tokens: c class, t text, and what its ends run into ---- *)
Tok(c, t) == [c |-> c, t |-> t, apply |-> FALSE]
Id(t) == Tok("id", t)
Wild(t) == Tok("wild", t)        \* an identifier an operator can swallow
Op(t) == Tok("op", t)
OpId(t) == Tok("opid", t)        \* an operator an identifier can swallow
OpMinus(t) == Tok("opminus", t)  \* as opid, and sign of a number after it
OpDot(t) == Tok("opdot", t)      \* a number can swallow it

Names == << Id("x"), Id("y"), Id("foo"), Id("a-b"), Id("z!"), Id("_1"), Id("x2"), Id("c"), Id("r"),
            Wild("$p"), Wild("?q"), Tok("qid", "'q r'"), Tok("qid", "'a:{'"), Wild("%b") >>
Plain == << Id("x"), Id("y"), Id("foo"), Id("a-b"), Id("z!"), Id("_1"), Id("b*"), Tok("qid", "'q r'") >>
Callees == << Id("f"), Id("g!"), Id("h-i") >>
Ops == << Op("+"), OpId("*"), OpMinus("-"), OpId("!"), OpDot("."), OpDot("."), Op("//"), OpId("->"),
          Op("%o"), Op("&&"), Op("<="), Op(";"), OpDot("..") >>
HeadOps == << Op("+"), Op("++"), OpId("**"), OpMinus("-"), OpId("!"), Op("//"), Op("%o") >>
Lits == << Tok("num", "1"), Tok("num", "42"), Tok("num", "3.25"), Tok("neg", "-2"), Tok("neg", "-0.5"),
           Tok("sym", ":a"), Tok("sym", ":k-1"), Tok("sym", ":'b c'"), Tok("str", "\"s\""),
           Tok("str", "\"\""), Tok("str", "\"# no:\""), Tok("str", "\"l%n   m %r\""), Tok("pstr", "r\"a\\d\""), Tok("pstr", "c\"q\\n\""),
           Tok("pstr", "t\"2020-02-03\""), Tok("pstr", "s\"number\"") >>
Patterns == << Tok("str", "\"{{#\""), Tok("str", "\"{x}%n %r%n{y}%s\""), Tok("str", "\"a{b}c\""), Tok("str", "\"{x.y:%03d}: {}\""), Tok("str", "\"{0}{1}#\""),
               Tok("str", "\"{ x }\""), Tok("pstr", "c\"-{ x . y :%d }\\{\""), Tok("pstr", "r\"{x }\\\"") >>
Open(t) == Tok("open", t)
Apply(t) == [Tok("open", t) EXCEPT !.apply = TRUE]
Close(t) == Tok("close", t)
Colon == Tok("colon", ":")
Comma == Tok("comma", ",")
Tick == Tok("tick", "`")

(* ---- must two neighbours be kept apart? ---- *)
IdLike == {"id", "wild", "qid", "num", "neg", "sym", "str", "pstr"}
Opish == {"op", "opid", "opminus", "opdot"}
Apart(a, b) ==
    CASE b.apply -> FALSE
      [] a.c \in {"open", "comma", "tick"} -> FALSE
      [] a.c = "colon" -> b.c \in {"id", "wild", "qid", "sym", "colon", "pstr"}
      [] b.c = "tick" -> a.c \in Opish         \* a backtick continues an operator
      [] b.c \in {"close", "comma"} -> FALSE
      [] b.c = "colon" -> FALSE
      [] b.c = "open" -> a.c \notin Opish
      [] a.c \in {"id", "wild", "sym"} -> b.c \in IdLike \union {"opid", "opminus"}
      [] a.c \in {"qid", "str", "pstr"} -> b.c \in {"qid", "str", "pstr"}
      [] a.c = "close" -> FALSE
      [] a.c \in Opish -> \/ b.c \in Opish \union {"wild", "neg"}
                          \/ b.c = "num" /\ a.c # "op"
      [] a.c \in {"num", "neg"} -> b.c \in {"num", "opdot", "id", "wild", "pstr", "qid"}
      [] OTHER -> TRUE

(* ---- trees: [toks, tree] ---- *)
Leaf(kind, tok) == [toks |-> <<tok>>, tree |-> "(" \o kind \o " <" \o tok.t \o ">)"]
Name(tok) == Leaf("NAME", tok)
Lit(tok) == Leaf("LITERAL", tok)
Pat(tok) == [toks |-> <<tok>>, tree |-> "<" \o tok.t \o ">"]

RECURSIVE Flat(_, _)
Flat(rs, n) == IF n = 0 THEN << >> ELSE Flat(rs, n - 1) \o rs[n].toks
Toks(rs) == Flat(rs, Len(rs))
Trees(rs) == Cat([i \in 1..Len(rs) |-> " " \o rs[i].tree])
\* (the set constructor makes TLC evaluate rs once)
Node(kind, parts) ==
    CHOOSE v \in { [toks |-> Toks(rs), tree |-> "(" \o kind \o Trees(rs) \o ")"] : rs \in {TLCEval(parts)} } : TRUE
Raw(tok) == [toks |-> <<tok>>, tree |-> "<" \o tok.t \o ">"]

RECURSIVE Between(_, _)
\* items with commas between them: commas are tokens, not part of the tree
Between(rs, n) ==
    IF n = 0 THEN << >>
    ELSE IF n = 1 THEN << rs[1] >>
    ELSE Append(Between(rs, n - 1), [toks |-> <<Comma>> \o rs[n].toks, tree |-> rs[n].tree])

RECURSIVE Soup(_, _), Element(_, _), Block(_, _, _), Decl(_, _), Group(_, _)

Bracketed(kind, open, close, items) == Node(kind, << Raw(open) >> \o items \o << Raw(close) >>)

Items(s, d, lo, hi) ==
    LET n == lo + Num(Sub(s, 1), hi - lo + 1)
        rs == TLCEval([i \in 1..n |-> Soup(Sub(s, 10 + i), d)])
        sep == TLCEval(Between(rs, n))
    IN IF n > 0 /\ Num(Sub(s, 2), 6) = 0
       THEN [sep EXCEPT ![n] = [@ EXCEPT !.toks = @ \o <<Comma>>]]     \* trailing comma
       ELSE sep
Args(s, d) ==
    LET n == 1 + Num(Sub(s, 1), 3)
        rs == TLCEval([i \in 1..n |-> Soup(Sub(s, 10 + i), d)])
    IN Between(rs, n)

\* head and tail of a list
Cons(s) == << Node("SOUP", << Name(Of(Sub(s, 1), Names)) >>), Raw(Colon),
              Node("SOUP", << Name(Of(Sub(s, 2), Names)) >>) >>

\* an argument tuple in one of its three spellings; it follows its callee directly
Tuple(s, d) ==
    CASE Num(Sub(s, 1), 4) = 0 /\ d > 0 ->
            Node("ARG_TUPLE", << Node("SOUP", << Block(Sub(s, 2), d - 1, Apply("{")) >>) >>)
      [] Num(Sub(s, 1), 4) = 1 ->
            Node("ARG_TUPLE", << Node("SOUP",
                << Bracketed("LIST", Apply("["), Close("]"), Items(Sub(s, 3), d - 1, 1, 2)) >>) >>)
      [] Num(Sub(s, 1), 11) = 2 ->
            Node("ARG_TUPLE", << Node("SOUP", << Bracketed("LIST", Apply("["), Close("]"), Cons(Sub(s, 5))) >>) >>)
      [] OTHER -> Bracketed("ARG_TUPLE", Apply("("), Close(")"), Args(Sub(s, 4), d - 1))

Element(s, d) ==
    LET k == Num(Sub(s, 1), IF d > 0 THEN 12 ELSE 7)
        v == Sub(s, 2)
    IN CASE k < 3 -> Name(Of(v, Names))
         [] k < 6 -> Lit(Of(v, Lits))
         [] k = 6 -> Pat(Of(v, Patterns))
         [] k = 7 -> Bracketed("PAREN_EXPR", Open("("), Close(")"), << Soup(v, d - 1) >>)
         [] k = 8 -> Bracketed("LIST", Open("["), Close("]"), Items(v, d - 1, 0, 3))
         [] k = 9 -> Block(v, d - 1, Open("{"))
         [] k = 10 -> Bracketed("LIST", Open("["), Close("]"),
Cons(v))
         [] OTHER -> Bracketed("PAREN_EXPR", Open("("), Close(")"),
                        << Node("SOUP", IF Num(Sub(v, 1), 2) = 0
                                        THEN << Name(Of(Sub(v, 2), Ops)), Element(Sub(v, 3), d - 1) >>
                                        ELSE << Element(Sub(v, 3), d - 1), Name(Of(Sub(v, 2), Ops)) >>) >>)

\* one to a few elements of a soup that belong together
Group(s, d) ==
    LET k == Num(Sub(s, 1), 9)
        e(i) == Element(Sub(s, 20 + i), d)
        o(i) == Name(Of(Sub(s, 30 + i), Ops))
        dot == Name(OpDot("."))
        call == << Name(Of(Sub(s, 40), Callees)), Tuple(Sub(s, 41), d) >>
    IN CASE k = 0 -> << e(1), o(1), e(2) >>
         [] k = 1 -> << e(1), dot, Name(Of(Sub(s, 42), Names)) >>
         [] k = 2 -> call
         [] k = 3 -> call \o << Tuple(Sub(s, 43), d) >>
         [] k = 4 -> << o(1), e(1) >>
         [] k = 5 -> << e(1), o(1) >>
         [] k = 6 -> << e(1), o(1), o(2), e(2) >>
         [] OTHER -> << e(1) >>

Soup(s, d) ==
    LET a == Group(Sub(s, 1), d)
        b == IF Num(Sub(s, 3), 3) = 0 THEN Group(Sub(s, 2), d) ELSE << >>
    IN Node("SOUP", a \o b)

Param(s) == Node("SOUP", << Name(Of(s, Plain)) >>)
PlainIds == << Id("x"), Id("y"), Id("foo"), Id("a-b"), Id("z!"), Id("b*") >>
Formal(s) == Name(Of(s, PlainIds))

DeclHead(s) ==
    LET k == Num(Sub(s, 1), 9)
        op == Name(Of(Sub(s, 2), HeadOps))
        paren(xs) == Node("DECL_HEAD", << Bracketed("PAREN_EXPR", Open("("), Close(")"), << Node("SOUP", xs) >>) >>)
        ps == [i \in 1..(1 + Num(Sub(s, 3), 3)) |-> Param(Sub(s, 50 + i))]
    IN CASE k = 0 -> paren(<< Formal(Sub(s, 4)), op, Formal(Sub(s, 5)) >>)
         [] k = 1 -> paren(<< op, Formal(Sub(s, 4)) >>)
         [] k = 2 -> paren(<< Formal(Sub(s, 4)), op >>)
         [] k \in {3, 4} -> Node("DECL_HEAD", << Name(Of(Sub(s, 6), Callees)),
                                Bracketed("ARG_TUPLE", Apply("("), Close(")"), Between(ps, Len(ps))) >>)
         [] OTHER -> Node("DECL_HEAD", << Name(Of(Sub(s, 7), Plain)) >>)

Decl(s, d) ==
    LET meta == IF Num(Sub(s, 1), 4) = 0
                THEN LET m == Soup(Sub(s, 2), IF d > 0 THEN 1 ELSE 0)
                     IN << [toks |-> <<Tick>> \o m.toks,
                            tree |-> "(DECL_META (SOUP <`>" \o SubSeq(m.tree, 6, Len(m.tree)) \o ")"] >>
                ELSE << >>
    IN Node("DECLARATION", meta \o << DeclHead(Sub(s, 3)), Raw(Colon),
                                      Node("DECL_BODY", << Soup(Sub(s, 4), d) >>) >>)

\* declarations, with or without a comma after each
Body(s, d, n) ==
    TLCEval([i \in 1..n |-> LET r == Decl(Sub(s, 10 + i), d)
                    IN IF Num(Sub(s, 40 + i), 3) = 0
                       THEN [r EXCEPT !.toks = @ \o <<Comma>>] ELSE r])
BlockMeta(s, d) == Node("BLOCK_META", << Soup(s, d) >>)

Block(s, d, open) ==
    LET n == Num(Sub(s, 1), Decls + 1)
        meta == IF Num(Sub(s, 2), 5) = 0 THEN << BlockMeta(Sub(s, 3), IF d > 0 THEN 1 ELSE 0) >> ELSE << >>
    IN Bracketed("BLOCK", open, Close("}"), meta \o Body(Sub(s, 4), d, n))

Unit(s) ==
    LET n == 1 + Num(Sub(s, 1), Decls)
        meta == IF Num(Sub(s, 2), 4) = 0 THEN << BlockMeta(Sub(s, 3), 1) >> ELSE << >>
    IN Node("UNIT", meta \o Body(Sub(s, 4), Depth, n))

(* ---- layout ---- *)
Blanks == << " ", " ", " ", "  ", "\t", "\n", "\n\n", " \n  ", "%r%n", " %r%n\t", "%r", "\n \n", "\n\n\n", "%s", " %s\n" >>
Remarks == << "# c", "# x: {", "#", "# \"q", "## d # e", "# t%r", "# %m%z%L" >>
Gap(s, a, b, must) ==
    CASE b.apply -> ""
      [] Comments > 0 /\ Num(Sub(s, 1), Comments) = 0 ->
            \* (# continues an operator)
            Of(Sub(s, 2), IF a.c \in Opish THEN << " ", "\n" >> ELSE << "", " ", "\n", "  " >>) \o Of(Sub(s, 3), Remarks) \o "\n"
              \o (IF Num(Sub(s, 4), 3) = 0 THEN Of(Sub(s, 5), Blanks) \o Of(Sub(s, 6), Remarks) \o "\n" ELSE "")
              \o Of(Sub(s, 7), << "", "", " ", "\n", "\t" >>)
      [] must -> Of(Sub(s, 8), Blanks)
      [] Num(Sub(s, 9), 2) = 0 -> ""
      [] OTHER -> Of(Sub(s, 10), Blanks)

\* one space where something is needed or customary
Neat(a, b) ==
    IF b.apply \/ a.c \in {"open", "tick"} \/ b.c \in {"close", "comma", "colon"} THEN "" ELSE " "

Texts(toks, s, style) ==
    LET n == Len(toks)
        gap(i) == IF style = "neat" THEN Neat(toks[i], toks[i + 1])
                  ELSE IF style = "tight"
                       THEN IF Apart(toks[i], toks[i + 1]) THEN " " ELSE ""
                       ELSE Gap(Sub(s, i), toks[i], toks[i + 1], Apart(toks[i], toks[i + 1]))
        edge(k, a) == IF style = "loose" THEN Gap(Sub(s, k), a, Comma, FALSE) ELSE ""
        last == IF style = "loose" /\ Comments > 0 /\ Num(Sub(s, 9001), 5) = 0 THEN " # end" ELSE ""
    IN edge(9000, Comma) \o Cat([i \in 1..n |-> toks[i].t \o (IF i < n THEN gap(i) ELSE "")]) \o edge(9002, IF n = 0 THEN Comma ELSE toks[n]) \o last

(* ---- damage ---- *)
Stray == << Tick, Comma, Colon, Colon, Open("("), Open("["), Open("{"), Close(")"), Close("]"), Close("}"),
            Apply("("), Apply("{"), Apply("["), Op("%L"), Op("%R"), Id("x"), OpMinus("-"), Tok("str", "\""),
            Tok("qid", "'"), Tok("str", "c\"{"), Tok("num", "1."), Tok("str", "\"{\""), Tok("op", "%q"),
            Tok("op", "%m"), Tok("op", "%z"), Id("%e"), Tok("str", "t\"20\""), Tok("op", "\\") >>
Damaged(toks, s) ==
    LET n == Len(toks)
        i == 1 + Num(Sub(s, 1), n)
        j == 1 + Num(Sub(s, 2), n)
        t == Of(Sub(s, 3), Stray)
    IN CASE Num(Sub(s, 4), 5) = 0 -> SubSeq(toks, 1, i - 1) \o SubSeq(toks, i + 1, n)
         [] Num(Sub(s, 4), 5) = 1 -> SubSeq(toks, 1, i) \o <<toks[j]>> \o SubSeq(toks, i + 1, n)
         [] Num(Sub(s, 4), 5) = 2 -> [toks EXCEPT ![i] = t]
         [] Num(Sub(s, 4), 5) = 3 -> SubSeq(toks, 1, i) \o <<t>> \o SubSeq(toks, i + 1, n)
         [] OTHER -> SubSeq(toks, 1, i)

(* ---- behaviour: draw a unit, lay it out three ways, then damage it ---- *)
Init == phase = "draw" /\ seed = <<1, 1>> /\ case = [kind |-> "none"]

Draw ==
    /\ phase = "draw"
    /\ \E a \in {RandomElement(1..30268)} : \E b \in {RandomElement(1..30306)} :
        LET s == <<a, b>>
            u == Unit(s)
        IN \E r \in {u} :
            /\ seed' = s
            /\ case' = [kind |-> "unit", tree |-> r.tree, toks |-> r.toks,
                        layouts |-> << Texts(r.toks, Sub(s, 7), "neat"), Texts(r.toks, Sub(s, 8), "tight"),
                                       Texts(r.toks, Sub(s, 9), "loose"), Texts(r.toks, Sub(s, 10), "loose") >>]
    /\ phase' = "drawn"

Damage ==
    /\ phase = "drawn"
    /\ LET once == Damaged(case.toks, Sub(seed, 11))
           twice == Damaged(once, Sub(seed, 12))
       IN case' = [kind |-> "damaged", tree |-> "", toks |-> once,
                   layouts |-> << Texts(once, Sub(seed, 13), "neat"), Texts(once, Sub(seed, 14), "loose"),
                                  IF Len(once) = 0 THEN "" ELSE Texts(twice, Sub(seed, 15), "tight") >>]
    /\ phase' = "damaged"
    /\ UNCHANGED seed

Next == Draw \/ Damage
Spec == Init /\ [][Next]_vars

(* ---- what the model itself promises ---- *)
\* the tokens of the tree are the tokens of the text: commas are the only
\* ones the tree does not show
Shown(t) == t.c # "comma"
TypeOK == phase \in {"draw", "drawn", "damaged"}
\* two layouts of one unit differ in layout only
Balanced ==
    phase = "drawn" =>
      LET n == Len(case.toks)
          opens == {i \in 1..n : case.toks[i].c = "open"}
          closes == {i \in 1..n : case.toks[i].c = "close"}
      IN Cardinality(opens) = Cardinality(closes)

Emit == phase # "draw" =>
    PrintT("@@" \o ToJson([kind |-> case.kind, tree |-> case.tree, layouts |-> case.layouts]))
=============================================================================
