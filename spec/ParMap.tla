------------------------------- MODULE ParMap -------------------------------
(* A map shared out among worker processes, each with its own stretch of the   *)
(* list and its own segment of an arena. Forks may fail, workers may die       *)
(* before, during or after their work or leave without doing it, waits may be  *)
(* interrupted, a result may not fit its segment, may not be data, may raise.  *)
(* Whatever happens, the answer is that of the plain map.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxW, Outs, Faults
VARIABLES outs,        \* what each element comes to: v(alue), big (a value no segment holds), raise, opaque
          width,       \* workers asked for
          plan,        \* what befalls each
          eintr,       \* interruptions of waiting to come
          phase, forked, ws, made, header, waited, faulted, at, result
case == <<outs, width, plan>>
vars == <<outs, width, plan, eintr, phase, forked, ws, made, header, waited, faulted, at, result>>

N == Len(outs)
Least(a, b) == IF a < b THEN a ELSE b
W == Least(width, N)
Start(i) == (i - 1) * (N \div W) + Least(i - 1, N % W)        \* elements before worker i's
Share(i) == (N \div W) + (IF i <= N % W THEN 1 ELSE 0)
Init == /\ outs \in UNION {[1..n -> Outs] : n \in 0..MaxN}
        /\ width \in 1..MaxW
        /\ plan \in [1..Least(width, Len(outs)) -> Faults]
        /\ eintr \in 0..1 /\ phase = "start" /\ forked = 0 /\ waited = 0 /\ at = 0
        /\ ws = [i \in 1..MaxW |-> "none"] /\ made = [i \in 1..MaxW |-> 0] /\ header = made
        /\ faulted = FALSE /\ result = <<"none">>

Begin == /\ phase = "start" /\ phase' = IF W < 2 THEN "seq" ELSE "fork"
         /\ UNCHANGED case /\ UNCHANGED <<eintr, forked, ws, made, header, waited, faulted, at, result>>
Fork ==
  /\ phase = "fork"
  /\ IF forked = W THEN phase' = "wait" /\ UNCHANGED <<forked, ws, faulted>>
     ELSE IF plan[forked + 1] = "forkfail" THEN phase' = "clear" /\ faulted' = TRUE /\ UNCHANGED <<forked, ws>>
     ELSE forked' = forked + 1 /\ ws' = [ws EXCEPT ![forked + 1] = "run"] /\ UNCHANGED <<phase, faulted>>
  /\ UNCHANGED case /\ UNCHANGED <<eintr, made, header, waited, at, result>>
Work(i) ==
  /\ ws[i] = "run"
  /\ \/ /\ plan[i] = "early0" /\ ws' = [ws EXCEPT ![i] = "left"] /\ UNCHANGED <<made, header>>
     \/ /\ plan[i] \in {"early9", "cut"} /\ ws' = [ws EXCEPT ![i] = "dead"] /\ UNCHANGED <<made, header>>
     \/ /\ plan[i] \notin {"early0", "early9"} /\ made[i] < Share(i)
        /\ IF outs[Start(i) + made[i] + 1] = "v" THEN made' = [made EXCEPT ![i] = @ + 1] /\ UNCHANGED ws
           ELSE ws' = [ws EXCEPT ![i] = "dead"] /\ UNCHANGED made
        /\ UNCHANGED header
     \/ /\ plan[i] \notin {"early0", "early9"} /\ made[i] = Share(i)
        /\ header' = [header EXCEPT ![i] = made[i]]
        /\ ws' = [ws EXCEPT ![i] = IF plan[i] = "late" THEN "dead" ELSE "left"] /\ UNCHANGED made
  /\ UNCHANGED case /\ UNCHANGED <<eintr, phase, forked, waited, faulted, at, result>>
Wait ==
  /\ phase = "wait"
  /\ IF waited = forked THEN phase' = "read" /\ UNCHANGED <<eintr, ws, waited, faulted>>
     ELSE IF eintr > 0 THEN eintr' = eintr - 1 /\ UNCHANGED <<phase, ws, waited, faulted>>
     ELSE /\ ws[waited + 1] \in {"left", "dead"}
          /\ ws' = [ws EXCEPT ![waited + 1] = "reaped"] /\ waited' = waited + 1
          /\ IF ws[waited + 1] = "dead" THEN phase' = "clear" /\ faulted' = TRUE ELSE UNCHANGED <<phase, faulted>>
          /\ UNCHANGED eintr
  /\ UNCHANGED case /\ UNCHANGED <<forked, made, header, at, result>>
Clear ==       \* kill and reap those still about
  /\ phase = "clear"
  /\ ws' = [i \in DOMAIN ws |-> IF ws[i] = "none" THEN "none" ELSE "reaped"]
  /\ phase' = "seq"
  /\ UNCHANGED case /\ UNCHANGED <<eintr, forked, made, header, waited, faulted, at, result>>
RECURSIVE Joined(_)
Joined(i) == IF i = 0 THEN <<>> ELSE Joined(i - 1) \o [k \in 1..header[i] |-> Start(i) + k]
Read ==
  /\ phase = "read"
  /\ IF \A i \in 1..W : header[i] = Share(i) THEN phase' = "done" /\ result' = <<"list", Joined(W)>> /\ UNCHANGED faulted
     ELSE phase' = "seq" /\ faulted' = TRUE /\ UNCHANGED result
  /\ UNCHANGED case /\ UNCHANGED <<eintr, forked, ws, made, header, waited, at>>
Alone ==
  /\ phase = "seq"
  /\ IF at = N THEN phase' = "done" /\ result' = <<"list", [k \in 1..N |-> k]>> /\ UNCHANGED at
     ELSE IF outs[at + 1] \in {"v", "big"} THEN at' = at + 1 /\ UNCHANGED <<phase, result>>
     ELSE phase' = "done" /\ result' = <<outs[at + 1], at + 1>> /\ UNCHANGED at
  /\ UNCHANGED case /\ UNCHANGED <<eintr, forked, ws, made, header, waited, faulted>>
Next == Begin \/ Fork \/ (\E i \in 1..MaxW : Work(i)) \/ Wait \/ Clear \/ Read \/ Alone
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Fork \/ Wait \/ Clear \/ Read \/ Alone) /\ \A i \in 1..MaxW : WF_vars(Work(i))

(* ---- what a user relies on ---- *)
Failing == {k \in 1..N : outs[k] \in {"raise", "opaque"}}
Answer == IF Failing = {} THEN <<"list", [k \in 1..N |-> k]>>
          ELSE LET k == CHOOSE k \in Failing : \A j \in Failing : k <= j IN <<outs[k], k>>
SameAsMap == phase = "done" => result = Answer
NobodyLeft == phase = "done" => \A i \in 1..MaxW : ws[i] \in {"none", "reaped"}
OwnSegments == \A i \in 1..W : made[i] <= Share(i) /\ header[i] <= made[i]
Partition == N > 0 => /\ Start(1) = 0 /\ Start(W) + Share(W) = N
                      /\ \A i \in 1..W - 1 : Start(i + 1) = Start(i) + Share(i)
Ends == <>(phase = "done")
(* a fault that no schedule hides, and a run with nothing to hide *)
Sure == W > 1 /\ ((\E i \in 1..W : plan[i] \in {"forkfail", "early0", "early9", "late"}) \/ \E k \in 1..N : outs[k] # "v")
Clean == W > 1 /\ (\A i \in 1..W : plan[i] = "ok") /\ \A k \in 1..N : outs[k] = "v"
Told == phase = "done" => (Sure => faulted) /\ (Clean => ~faulted)
Emit == phase # "done" \/ PrintT("@@" \o ToJson([outs |-> outs, w |-> width, plan |-> plan, eintr |-> eintr, result |-> result,
                                                sure |-> Sure, clean |-> Clean]))
=============================================================================
