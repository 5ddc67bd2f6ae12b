-------------------------------- MODULE Sink ---------------------------------
(* Writing a document to a sink that may take less than it is given, interrupt, *)
(* or fail for good once it has taken so much. The run evaluates the scalars of *)
(* a list one after another; a streaming format writes each as it comes, the    *)
(* others write the document at the end. Evaluation itself may fail at a scalar.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lens,      \* lengths of the texts rendered
          MaxItems,
          DocLen,    \* abstract length of a document written whole
          Kinds      \* how a sink fails: "pipe" (nobody reads), or for another reason
VARIABLES items, streaming, failsAt,     \* the program: texts, kind of format, the scalar that fails (0: none)
          budget, kind, chunk, eintr,    \* the sink: how much it takes in all, then how it fails; per call; interruptions
          next, pending, taken, calls, result
prog == <<items, streaming, failsAt>>
sink == <<budget, kind, chunk, eintr>>
vars == <<items, streaming, failsAt, budget, kind, chunk, eintr, next, pending, taken, calls, result>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + 1 + Sum(Tail(q))       \* each text ends its line
Total == IF streaming THEN Sum(items) ELSE DocLen
Seqs == UNION {[1..n -> Lens] : n \in 1..MaxItems}

Init == /\ items \in Seqs /\ streaming \in BOOLEAN
        /\ failsAt \in 0..Len(items)
        /\ kind \in Kinds /\ budget \in 0..(IF streaming THEN Sum(items) + 1 ELSE DocLen + 1)
        /\ chunk \in {1, 2, 99} /\ eintr \in BOOLEAN
        /\ next = 1 /\ pending = 0 /\ taken = 0 /\ calls = 0 /\ result = "none"

(* a scalar is evaluated only once what came before it is written *)
Evaluate ==
  /\ result = "none" /\ pending = 0 /\ next <= Len(items)
  /\ IF next = failsAt THEN result' = "error" /\ UNCHANGED <<next, pending>>
     ELSE /\ next' = next + 1
          /\ pending' = IF streaming THEN items[next] + 1 ELSE IF next = Len(items) THEN DocLen ELSE 0
          /\ UNCHANGED result
  /\ UNCHANGED <<taken, calls>> /\ UNCHANGED prog /\ UNCHANGED sink
Min(a, b) == IF a < b THEN a ELSE b
Write ==
  /\ result = "none" /\ pending > 0
  /\ calls' = (calls + 1) % 2
  /\ IF eintr /\ calls = 0 THEN UNCHANGED <<pending, taken, result>>              \* try again
     ELSE IF taken = budget THEN /\ result' = IF kind = "pipe" THEN "closed" ELSE "unwritten"
                                 /\ UNCHANGED <<pending, taken>>
     ELSE LET n == Min(Min(pending, chunk), budget - taken) IN
          pending' = pending - n /\ taken' = taken + n /\ UNCHANGED result
  /\ UNCHANGED next /\ UNCHANGED prog /\ UNCHANGED sink
End == /\ result = "none" /\ pending = 0 /\ next > Len(items)
       /\ result' = "ok" /\ UNCHANGED <<next, pending, taken, calls>> /\ UNCHANGED prog /\ UNCHANGED sink
Next == Evaluate \/ Write \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what a user relies on ---- *)
NoSilentLoss == result = "ok" => taken = Total /\ failsAt = 0
QuietOnlyIfUnread == result = "closed" => kind = "pipe" /\ taken < Total
Reported == result = "unwritten" => kind # "pipe" /\ taken = budget
EarlierFailureWins == (result = "error") => failsAt > 0 /\ (streaming => taken = Sum(SubSeq(items, 1, failsAt - 1))) /\ (~streaming => taken = 0)
Whole == (failsAt = 0 /\ budget >= Total /\ result # "none") => result = "ok"
Ends == <>(result # "none")
Fault(r) == CASE r = "ok" -> 0 [] r = "closed" -> 0 [] OTHER -> 1
Emit == result = "none" \/ PrintT("@@" \o ToJson(
          [items |-> items, st |-> streaming, failsAt |-> failsAt, budget |-> budget, kind |-> kind, chunk |-> chunk,
           eintr |-> eintr, taken |-> taken, result |-> result, total |-> Total]))
==============================================================================
