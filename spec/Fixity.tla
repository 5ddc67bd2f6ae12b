------------------------------- MODULE Fixity -------------------------------
(***************************************************************************)
(* Resolution of a soup of operands and operators into an expression.      *)
(*                                                                         *)
(* A soup is written one token at a time (Write), closed (Close), filled   *)
(* (catenation operators between adjacent values, section parameters       *)
(* "holes" where an operand is missing) and then shunted, one token at a   *)
(* time.  The declarative meaning is WellFormed: which of the trees over   *)
(* the filled token sequence respects precedence, associativity and        *)
(* fixity.  Invariants: the machine never lacks operands, the tree it      *)
(* builds is WellFormed, and (ChkUnique) it is the only well-formed tree.  *)
(*                                                                         *)
(* Each finished behaviour is emitted: the soup, its holes, and the tree.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  OpSet,       \* set of operators [n, f, p]: name, fixity L R pre post nul, precedence
  MinLen,      \* shortest soup emitted
  MaxLen,      \* longest soup written
  MaxHoles,    \* behaviours with more holes are not continued
  Strict,      \* TRUE: write only soups with neither adjacent values nor missing operands
  ChkUnique    \* TRUE: compare with every tree (small bounds only)

VARIABLES phase, soup, inp, out, ops

vars == <<phase, soup, inp, out, ops>>

Value == [n |-> "v", f |-> "val", p |-> 0]
Hole  == [n |-> "h", f |-> "val", p |-> 0]
Cat   == [n |-> "cat", f |-> "L", p |-> 20]

----------------------------------------------------------------------------
(* Filling.  Each token has a left and a right side that is value-like or   *)
(* operator-like; the outside of the soup is operator-like.                 *)

LeftIsValue(t)  == t.f \in {"val", "nul", "pre"}
RightIsValue(t) == t.f \in {"val", "nul", "post"}

Between(rv, lv) == IF rv /\ lv THEN <<Cat>> ELSE IF ~rv /\ ~lv THEN <<Hole>> ELSE <<>>

RECURSIVE Fill(_, _)
Fill(s, rv) ==
  IF s = <<>> THEN Between(rv, FALSE)
  ELSE Between(rv, LeftIsValue(Head(s))) \o <<Head(s)>> \o Fill(Tail(s), RightIsValue(Head(s)))

(* operands are numbered from the left: v1, v2, ... and holes h1, h2, ...   *)
RECURSIVE Number(_, _, _)
Number(s, v, h) ==
  IF s = <<>> THEN <<>>
  ELSE LET t == Head(s) IN
       IF t.n = "v" THEN <<[n |-> "v" \o ToString(v), f |-> "val", p |-> 0]>> \o Number(Tail(s), v + 1, h)
       ELSE IF t.n = "h" THEN <<[n |-> "h" \o ToString(h), f |-> "val", p |-> 0]>> \o Number(Tail(s), v, h + 1)
       ELSE <<t>> \o Number(Tail(s), v, h)

Filled(s) == Number(Fill(s, FALSE), 1, 1)

Holes(s) == Cardinality({i \in 1..Len(s) : s[i].n \in {"h1", "h2", "h3", "h4", "h5", "h6"}})

----------------------------------------------------------------------------
(* Trees. *)
Leaf(t)      == [op |-> t, kids |-> <<>>]
Node(t, ks)  == [op |-> t, kids |-> ks]

Arity(t) == CASE t.f \in {"L", "R"} -> 2
              [] t.f \in {"pre", "post"} -> 1
              [] OTHER -> 0

(* An operator waiting on the left (a) is complete before one arriving on   *)
(* its right (b) takes its operand.                                         *)
Completes(a, b) ==
  CASE b.f = "pre"               -> FALSE     \* a prefix operator takes nothing from its left
    [] a.f = "L"                 -> b.p <= a.p
    [] a.f \in {"R", "pre"}      -> b.p < a.p
    [] a.f = "post"              -> TRUE
    [] OTHER                     -> TRUE

----------------------------------------------------------------------------
(* Declarative meaning. *)

RECURSIVE LeftSpine(_)   \* operators of x that take an operand starting at x's left edge
LeftSpine(x) ==
  CASE x.op.f \in {"L", "R", "post"} -> {x.op} \cup LeftSpine(x.kids[1])
    [] OTHER -> {}

RECURSIVE RightSpine(_)  \* operators of x with an operand ending at x's right edge
RightSpine(x) ==
  CASE x.op.f \in {"L", "R"} -> {x.op} \cup RightSpine(x.kids[2])
    [] x.op.f = "pre"        -> {x.op} \cup RightSpine(x.kids[1])
    [] OTHER -> {}

RECURSIVE WellFormed(_)
WellFormed(x) ==
  /\ \A i \in 1..Len(x.kids) : WellFormed(x.kids[i])
  /\ CASE x.op.f \in {"L", "R"} ->
            /\ \A o \in RightSpine(x.kids[1]) : Completes(o, x.op)
            /\ \A o \in LeftSpine(x.kids[2]) : ~Completes(x.op, o)
       [] x.op.f = "pre" -> \A o \in LeftSpine(x.kids[1]) : ~Completes(x.op, o)
       [] x.op.f = "post" -> \A o \in RightSpine(x.kids[1]) : Completes(o, x.op)
       [] OTHER -> TRUE

RECURSIVE Yield(_)
Yield(x) ==
  CASE x.op.f \in {"L", "R"} -> Yield(x.kids[1]) \o <<x.op>> \o Yield(x.kids[2])
    [] x.op.f = "pre"        -> <<x.op>> \o Yield(x.kids[1])
    [] x.op.f = "post"       -> Yield(x.kids[1]) \o <<x.op>>
    [] OTHER                 -> <<x.op>>

RECURSIVE Trees(_)
Trees(s) ==
  (IF Len(s) = 1 /\ Arity(s[1]) = 0 THEN {Leaf(s[1])} ELSE {})
  \cup (IF Len(s) > 1 /\ s[1].f = "pre" THEN {Node(s[1], <<k>>) : k \in Trees(Tail(s))} ELSE {})
  \cup (IF Len(s) > 1 /\ s[Len(s)].f = "post"
        THEN {Node(s[Len(s)], <<k>>) : k \in Trees(SubSeq(s, 1, Len(s) - 1))} ELSE {})
  \cup UNION {{Node(s[i], <<l, r>>) : l \in Trees(SubSeq(s, 1, i - 1)), r \in Trees(SubSeq(s, i + 1, Len(s)))}
              : i \in {j \in 2..(Len(s) - 1) : s[j].f \in {"L", "R"}}}

----------------------------------------------------------------------------
(* The machine. *)

Top == ops[Len(ops)]

(* operands on the output still wanted by the operators on the stack *)
Lacks(o) == Len(out) < Arity(o)

Init == phase = "write" /\ soup = <<>> /\ inp = <<>> /\ out = <<>> /\ ops = <<>>

(* a call's argument list, or a lookup, is written directly after a value *)
Suffix(t) == t.n \in {"call", "dot"}
Fits(t) == LET rv == IF soup = <<>> THEN FALSE ELSE RightIsValue(soup[Len(soup)]) IN rv # LeftIsValue(t)
MayFollow(t) == IF ~Suffix(t) THEN (IF Strict THEN Fits(t) ELSE TRUE)
                ELSE IF soup = <<>> THEN FALSE
                ELSE soup[Len(soup)].n \in {"v", "call"}

Write(t) ==
  /\ phase = "write" /\ Len(soup) < MaxLen /\ MayFollow(t)
  /\ soup' = Append(soup, t)
  /\ UNCHANGED <<phase, inp, out, ops>>

Close ==
  /\ phase = "write" /\ Len(soup) >= MinLen /\ Len(soup) > 0
  /\ Holes(Filled(soup)) <= MaxHoles
  /\ phase' = "shunt"
  /\ inp' = Filled(soup)
  /\ UNCHANGED <<soup, out, ops>>

Push == \* an operand (or nullary operator) goes straight to the output
  /\ phase = "shunt" /\ inp # <<>> /\ Arity(Head(inp)) = 0
  /\ out' = Append(out, Leaf(Head(inp)))
  /\ inp' = Tail(inp)
  /\ UNCHANGED <<phase, soup, ops>>

Applied(o) ==
  LET n == Arity(o)
      k == Len(out)
  IN  Append(SubSeq(out, 1, k - n), Node(o, SubSeq(out, k - n + 1, k)))

Complete == \* the waiting operator is complete: apply it
  /\ phase = "shunt" /\ ops # <<>>
  /\ (IF inp = <<>> THEN TRUE ELSE Arity(Head(inp)) > 0 /\ Completes(Top, Head(inp)))
  /\ IF Lacks(Top) THEN phase' = "stuck" /\ UNCHANGED <<out, ops>>
     ELSE /\ out' = Applied(Top)
          /\ ops' = SubSeq(ops, 1, Len(ops) - 1)
          /\ UNCHANGED phase
  /\ UNCHANGED <<soup, inp>>

Seat ==
  /\ phase = "shunt" /\ inp # <<>> /\ Arity(Head(inp)) > 0
  /\ (IF ops = <<>> THEN TRUE ELSE ~Completes(Top, Head(inp)))
  /\ ops' = Append(ops, Head(inp))
  /\ inp' = Tail(inp)
  /\ UNCHANGED <<phase, soup, out>>

Finish ==
  /\ phase = "shunt" /\ inp = <<>> /\ ops = <<>>
  /\ phase' = "done"
  /\ UNCHANGED <<soup, inp, out, ops>>

Next == (\E t \in OpSet \cup {Value} : Write(t)) \/ Close \/ Push \/ Complete \/ Seat \/ Finish

----------------------------------------------------------------------------
NeverStuck == phase # "stuck"

OneTree == phase = "done" => Len(out) = 1

MachineIsWellFormed ==
  phase = "done" => WellFormed(out[1]) /\ Yield(out[1]) = Filled(soup)

UniqueTree ==
  (ChkUnique /\ phase = "done") => {x \in Trees(Filled(soup)) : WellFormed(x)} = {out[1]}

(* progress: filling and shunting end *)
RECURSIVE Show(_)
Show(x) ==
  CASE x.op.f \in {"L", "R"} -> "(" \o Show(x.kids[1]) \o " " \o x.op.n \o " " \o Show(x.kids[2]) \o ")"
    [] x.op.f = "pre"  -> "(" \o x.op.n \o " " \o Show(x.kids[1]) \o ")"
    [] x.op.n = "call" -> "(w cat " \o Show(x.kids[1]) \o ")"
    [] x.op.n = "dot"  -> IF x.kids[1].op.f = "val" THEN x.kids[1].op.n ELSE "?"
    [] x.op.f = "post" -> "(" \o Show(x.kids[1]) \o " " \o x.op.n \o ")"
    [] OTHER -> x.op.n

Emit ==
  phase = "done" =>
    PrintT("@@" \o ToJson([s |-> [i \in 1..Len(soup) |-> soup[i].n],
                           h |-> Holes(Filled(soup)),
                           t |-> Show(out[1])]))
=============================================================================
