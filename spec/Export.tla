------------------------------ MODULE Export --------------------------------
(* Rendering a value: the walk over it that emits a stream of events, the      *)
(* accumulator that builds a document of some format from the stream, what a   *)
(* reader of that document finds, and which documents each format refuses.     *)
(* A value is a record whose k names its kind; text, numbers and datetimes are *)
(* indexes into tables of the check, the specification only moves them about.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS NText,    \* texts 1..NText
          NNum,     \* numbers 1..NNum, those in Wide beyond a signed 64-bit integer
          Wide,
          NTime,    \* datetimes 1..NTime
          NTag,     \* names of elements 1..NTag
          NAttr,    \* names of attributes
          Void,     \* elements without content
          Raw       \* elements whose content is text alone

VARIABLES v,        \* the value rendered
          evs,      \* its events
          pos,      \* events consumed
          stack,    \* open containers, outermost first
          doc,      \* the document, once there is one
          els,      \* markup elements and attribute blocks open: what each expects
          why       \* per format, why it refused

vars == <<v, evs, pos, stack, doc, els, why>>

Pick(X, f(_)) == CHOOSE r \in {TLCEval(f(x)) : x \in {RandomElement(X)}} : TRUE
GenN(n, g(_)) == TLCEval([i \in 1..n |-> TLCEval(g(i))])

(* ---- values ---- *)
Text(x) == Pick(1..8, LAMBDA c : IF c = 1 THEN <<RandomElement(1..NText), RandomElement(1..NText)>>
                                 ELSE IF c = 2 THEN <<>> ELSE <<RandomElement(1..NText)>>)
Scalar(x) ==
  Pick(1..16, LAMBDA c :
    CASE c \in 1..5 -> [k |-> "str", s |-> Text(0)]
      [] c \in 6..8 -> [k |-> "sym", s |-> Text(0)]
      [] c \in 9..12 -> [k |-> "num", i |-> RandomElement(1..NNum)]
      [] c = 13 -> [k |-> "bool", t |-> TRUE]
      [] c = 14 -> [k |-> "bool", t |-> FALSE]
      [] c = 15 -> [k |-> "null"]
      [] c = 16 -> [k |-> "time", i |-> RandomElement(1..NTime)])
Marks == {"suppress", "internal", "public", "doc", "tag"}
(* keys: symbols for the most part; distinct as texts *)
KeyText(x) == Pick(1..6, LAMBDA c : IF c = 1 THEN <<RandomElement(1..NText), RandomElement(1..NText)>> ELSE <<RandomElement(1..NText)>>)
Key(x) == Pick(1..24, LAMBDA c : IF c = 1 THEN [k |-> "num", i |-> RandomElement(1..NNum)]
                                 ELSE IF c \in 2..4 THEN [k |-> "str", s |-> KeyText(0)]
                                 ELSE [k |-> "sym", s |-> KeyText(0)])
NoKey(p, q) == IF p.k = "num" \/ q.k = "num" THEN p = q ELSE p.s = q.s
RECURSIVE Distinct(_)
Distinct(kvs) == IF kvs = <<>> THEN <<>>
                 ELSE LET rest == Distinct(Front(kvs)) IN
                      IF \E i \in 1..Len(rest) : NoKey(rest[i][1], Last(kvs)[1]) THEN rest
                      ELSE Append(rest, Last(kvs))
(* some values stand twice in a row *)
Twin(q) == IF q = <<>> THEN q ELSE Pick(1..(5 + Len(q)), LAMBDA j : IF j > Len(q) THEN q ELSE SubSeq(q, 1, j) \o SubSeq(q, j, Len(q)))
RECURSIVE Value(_)
Marked(d) == [k |-> "meta", m |-> RandomElement(Marks), x |-> Value(d)]
Entry(d) == <<Key(0), Pick(1..10, LAMBDA c : IF c = 1 THEN [k |-> "fn"] ELSE IF c \in 2..3 THEN Marked(d) ELSE Value(d))>>
Value(d) ==
  Pick(1..10, LAMBDA c :
    IF d = 0 \/ c \in 1..3 THEN Scalar(0)
    ELSE IF c \in 4..6 THEN [k |-> "list", x |-> Twin(Pick(0..3, LAMBDA n : GenN(n, LAMBDA i :
           Pick(1..12, LAMBDA e : IF e = 1 THEN Marked(d - 1) ELSE Value(d - 1)))))]
    ELSE [k |-> "block", x |-> Pick(0..4, LAMBDA n : Distinct(GenN(n, LAMBDA i : Entry(d - 1))))])
(* an element of markup: its name, attributes and content *)
RECURSIVE Element(_)
Attrs(x) == Pick({s \in SUBSET (1..NAttr) : Cardinality(s) < 3}, LAMBDA s :
              LET q == SetToSeq(s) IN GenN(Len(q), LAMBDA i : <<[k |-> "attr", i |-> q[i]], Scalar(0)>>))
Element(d) ==
  Pick(1..NTag, LAMBDA g :
    [k |-> "list", x |-> <<[k |-> "tag", i |-> g]>> \o Pick(1..4, LAMBDA c : IF c = 1 THEN <<>> ELSE <<[k |-> "block", x |-> Attrs(0)]>>) \o
       (IF d = 0 \/ g \in Void THEN <<>>
        ELSE Twin(Pick(0..3, LAMBDA n : GenN(n, LAMBDA i : Pick(1..2, LAMBDA c : IF c = 1 \/ g \in Raw THEN Scalar(0) ELSE
               Pick(1..16, LAMBDA e : IF e = 1 THEN Value(1) ELSE IF e = 2 THEN Marked(1) ELSE Element(d - 1)))))))])

(* ---- rendering ---- *)
Hidden(x) == x.k = "meta" /\ x.m \in {"suppress", "internal"}
Core(x) == IF x.k = "meta" THEN x.x ELSE x
Shown(x) == ~Hidden(x) /\ Core(x).k # "fn"
RECURSIVE Events(_), Walk(_), WalkKvs(_)
Events(x) ==
  LET c == Core(x) IN
  CASE Hidden(x) -> <<>>
    [] c.k = "list" -> <<[e |-> "list"]>> \o Walk(c.x) \o <<[e |-> "end"]>>
    [] c.k = "block" -> <<[e |-> "block"]>> \o WalkKvs(c.x) \o <<[e |-> "end"]>>
    [] OTHER -> <<[e |-> "scalar", x |-> c]>>
Walk(q) == IF q = <<>> THEN <<>> ELSE Events(Head(q)) \o Walk(Tail(q))
WalkKvs(q) == IF q = <<>> THEN <<>>
              ELSE (IF Shown(Head(q)[2]) THEN Events(Head(q)[1]) \o Events(Head(q)[2]) ELSE <<>>) \o WalkKvs(Tail(q))

(* what a reader should find, said without the events *)
RECURSIVE Visible(_)
Visible(x) ==
  LET c == Core(x) IN
  CASE c.k = "list" -> LET q == SelectSeq(c.x, LAMBDA y : ~Hidden(y)) IN
                       [k |-> "list", x |-> [i \in 1..Len(q) |-> Visible(q[i])]]
    [] c.k = "block" -> LET q == SelectSeq(c.x, LAMBDA y : Shown(y[2])) IN
                        [k |-> "block", x |-> [i \in 1..Len(q) |-> <<q[i][1], Visible(q[i][2])>>]]
    [] OTHER -> c

(* ---- the accumulator: what is open, and whether a block awaits a value ---- *)
None == [k |-> "none"]
Top == stack[Len(stack)]
AtKey == stack # <<>> /\ Top.k = "block" /\ Top.key.k = "none"
Feed(st, x) ==
  IF st = <<>> THEN st
  ELSE LET t == st[Len(st)] IN
       Front(st) \o << IF t.k = "list" THEN [t EXCEPT !.x = Append(@, x)]
                       ELSE IF t.key.k = "none" THEN [t EXCEPT !.key = x]
                       ELSE [t EXCEPT !.key = None, !.x = Append(@, <<t.key, x>>)] >>
Strip(t) == [k |-> t.k, x |-> t.x]

Formats == {"json", "toml", "edn", "eu", "text", "html"}
TextKeys == {"json", "toml", "eu"}
(* markup: an element is a list of its tag, perhaps a block of attributes, and contents *)
Wants == IF els = <<>> THEN "root" ELSE els[Len(els)]
MarkupTakes(ev) ==
  CASE ev.e = "scalar" -> Wants \in {"tagged", "open", "key", "value"} \/ (Wants = "tag" /\ ev.x.k \in {"str", "sym", "tag", "attr"})
    [] ev.e = "list" -> Wants \in {"root", "tagged", "open"}
    [] ev.e = "block" -> Wants = "tagged"
    [] OTHER -> Wants # "value" /\ ~(Wants = "tag" /\ Len(els) = 1)
Now(w) == [els EXCEPT ![Len(els)] = w]
MarkupStep(ev) ==
  CASE ev.e = "scalar" -> Now(CASE Wants = "tag" -> "tagged" [] Wants = "key" -> "value" [] Wants = "value" -> "key" [] OTHER -> "open")
    [] ev.e = "list" -> Append(els, "tag")
    [] ev.e = "block" -> Append(els, "key")
    [] OTHER -> LET q == Front(els) IN          \* a list of nothing is no element, and nothing of its parent
                IF q = <<>> \/ Wants = "tag" THEN q ELSE [q EXCEPT ![Len(q)] = "open"]
Refusal(f, ev) ==
  IF f \in TextKeys /\ AtKey /\ (ev.e # "end") /\ ~(ev.e = "scalar" /\ ev.x.k \in {"str", "sym", "attr", "tag"}) THEN "shape"
  ELSE IF f = "toml" /\ ev.e = "scalar" /\ (ev.x.k = "null" \/ (ev.x.k = "num" /\ ev.x.i \in Wide)) THEN "value"
  ELSE IF f = "html" /\ ~MarkupTakes(ev) THEN "shape"
  ELSE ""

Init == v = None /\ evs = <<>> /\ pos = 0 /\ stack = <<>> /\ doc = None /\ els = <<>> /\ why = [f \in Formats |-> ""]
Draw ==
  /\ v = None
  /\ \E c \in {RandomElement(1..10)} :
       v' = TLCEval(IF c \in 1..2 THEN Element(3)
           ELSE IF c = 3 THEN [k |-> "list", x |-> GenN(3, LAMBDA i : Value(2))]
           ELSE IF c = 4 THEN Value(1)
           ELSE [k |-> "block", x |-> Distinct(GenN(4, LAMBDA i : Entry(2)))])
  /\ ~Hidden(v') /\ Core(v').k # "fn"
  /\ evs' = Events(v')
  /\ UNCHANGED <<pos, stack, doc, els, why>>

Step ==
  /\ v # None /\ pos < Len(evs)
  /\ LET ev == evs[pos + 1] IN
     /\ pos' = pos + 1
     /\ why' = [f \in Formats |-> IF why[f] # "" THEN why[f] ELSE Refusal(f, ev)]
     /\ els' = IF why'["html"] # "" THEN els ELSE MarkupStep(ev)
     /\ CASE ev.e = "scalar" ->
               /\ stack' = Feed(stack, ev.x)
               /\ doc' = IF stack = <<>> THEN ev.x ELSE doc
          [] ev.e \in {"list", "block"} ->
               /\ stack' = Append(stack, [k |-> ev.e, x |-> <<>>, key |-> None])
               /\ UNCHANGED doc
          [] ev.e = "end" ->
               /\ stack' = Feed(Front(stack), Strip(Top))
               /\ doc' = IF Len(stack) = 1 THEN Strip(Top) ELSE doc
  /\ UNCHANGED <<v, evs>>
Next == Draw \/ Step

(* ---- laws ---- *)
Done == v # None /\ pos = Len(evs)
(* the stream is well nested, and keys and values alternate *)
Nested == v # None =>
          /\ (pos > 0 /\ ~Done) => stack # <<>>
          /\ Done => stack = <<>>
          /\ (stack # <<>> /\ ~Done /\ evs[pos + 1].e = "end") => Top.key.k = "none"
(* the accumulator finds what the value shows *)
Faithful == Done => doc = Visible(v)
(* a format that refuses nothing refuses nothing, and the text formats agree *)
Refusals == /\ why["edn"] = "" /\ why["text"] = ""
            /\ why["json"] = why["eu"] /\ (why["json"] # "" => why["toml"] # "")
Texts == LET q == SelectSeq(evs, LAMBDA e : e.e = "scalar") IN [i \in 1..Len(q) |-> q[i].x]
(* what markup makes of the value, said without the events *)
RECURSIVE IsElement(_)
Named(x) == x.k \in {"str", "sym", "tag", "attr"}
Attributes(x) == x.k = "block" /\ \A i \in 1..Len(x.x) : x.x[i][2].k \notin {"list", "block"}
IsElement(x) == /\ x.k = "list" /\ x.x # <<>> /\ Named(x.x[1])
                /\ \A i \in 2..Len(x.x) : CASE x.x[i].k = "list" -> x.x[i].x = <<>> \/ IsElement(x.x[i])
                                            [] x.x[i].k = "block" -> (\A j \in 2..(i - 1) : x.x[j].k = "list" /\ x.x[j].x = <<>>) /\ Attributes(x.x[i])
                                            [] OTHER -> TRUE
MarkupAlone == Done => ((why["html"] = "") = IsElement(Visible(v)))
(* elements whose names are ones HTML knows, and whose attributes have names of their own *)
RECURSIVE Known(_)
Known(x) == x.x = <<>> \/
            (/\ x.x[1].k = "tag"
                 /\ \A i \in 2..Len(x.x) : CASE x.x[i].k = "list" -> Known(x.x[i])
                                             [] x.x[i].k = "block" -> \A j \in 1..Len(x.x[i].x) : x.x[i].x[j][1].k = "attr"
                                             [] OTHER -> TRUE)
IsMarkup == doc.k = "list" /\ doc.x # <<>> /\ why["html"] = "" /\ Known(doc)
Emit == Done => PrintT("@@" \o ToJson([v |-> v, doc |-> doc, why |-> why, texts |-> Texts, markup |-> IsMarkup]))
=============================================================================
