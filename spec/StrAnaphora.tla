---------------------------- MODULE StrAnaphora ----------------------------
(* Strings with interpolated anaphora: each {} is a parameter of its own,  *)
(* {0}, {1} .. are numbered; a string with any is a function of them.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxLen
VARIABLES chunks, phase, pos, n, max, kinds, out
vars == <<chunks, phase, pos, n, max, kinds, out>>

Chunk == {"lit", "brace", "z", "anon", "n0", "n1", "n2"}
Src(c) == CASE c = "lit" -> "-" [] c = "brace" -> "{{}}" [] c = "z" -> "{z}" [] c = "anon" -> "{}" [] c = "n0" -> "{0}" [] c = "n1" -> "{1}" [] OTHER -> "{2}"
RECURSIVE SrcAll(_)
SrcAll(s) == IF s = <<>> THEN "" ELSE Src(Head(s)) \o SrcAll(Tail(s))

Init == chunks = <<>> /\ phase = "write" /\ pos = 0 /\ n = 0 /\ max = -1 /\ kinds = {} /\ out = ""
Write == phase = "write" /\ Len(chunks) < MaxLen /\ \E c \in Chunk : chunks' = Append(chunks, c) /\ UNCHANGED <<phase, pos, n, max, kinds, out>>
Begin == phase = "write" /\ chunks # <<>> /\ phase' = "read" /\ pos' = 1 /\ UNCHANGED <<chunks, n, max, kinds, out>>
NumOf(c) == CASE c = "n0" -> 0 [] c = "n1" -> 1 [] OTHER -> 2
Read ==
  /\ phase = "read" /\ pos <= Len(chunks) /\ pos' = pos + 1
  /\ LET c == chunks[pos] IN
     CASE c \in {"lit", "brace", "z"} ->
            out' = out \o (CASE c = "lit" -> "-" [] c = "brace" -> "{}" [] OTHER -> "z") /\ UNCHANGED <<n, max, kinds>>
       [] c = "anon" -> n' = n + 1 /\ kinds' = kinds \cup {"anon"} /\ out' = out \o "a" \o ToString(n + 1) /\ UNCHANGED max
       [] OTHER -> /\ kinds' = kinds \cup {"num"} /\ max' = IF NumOf(c) > max THEN NumOf(c) ELSE max
                   /\ out' = out \o "a" \o ToString(NumOf(c) + 1) /\ UNCHANGED n
  /\ UNCHANGED <<chunks, phase>>
End == phase = "read" /\ pos > Len(chunks) /\ phase' = "done" /\ UNCHANGED <<chunks, pos, n, max, kinds, out>>
Next == Write \/ Begin \/ Read \/ End

Count(c) == Cardinality({i \in 1..Len(chunks) : chunks[i] = c})
CountsAgree == phase = "done" => n = Count("anon") /\ (max >= 0 <=> Count("n0") + Count("n1") + Count("n2") > 0)
Arity == IF "num" \in kinds THEN max + 1 ELSE n
Emit == phase = "done" =>
  PrintT("@@" \o ToJson([s |-> SrcAll(chunks), e |-> IF Cardinality(kinds) > 1 THEN "mixed" ELSE out, n |-> Arity]))
=============================================================================
