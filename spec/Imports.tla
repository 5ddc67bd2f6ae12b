------------------------------- MODULE Imports -------------------------------
(* Files that import each other. A directory tree of files, each with imports   *)
(* of its own at the level of the unit, of a declaration or of a block; what    *)
(* each path leads to; what loading does about files that are missing or import *)
(* themselves; and which names every reference can see. What a file means is    *)
(* defined by the file and what it imports alone (Mean), never by who imports   *)
(* it or how often.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS NFile, Bad     \* files 1..NFile, 1 is the main one; Bad: what may be wrong
VARIABLES fs, libs, todo, loaded, outcome, phase
vars == <<fs, libs, todo, loaded, outcome, phase>>

Pick(X, f(_)) == CHOOSE r \in {TLCEval(f(x)) : x \in {RandomElement(X)}} : TRUE
One(X) == CHOOSE r \in {RandomElement(X)} : TRUE
GenS(n, g(_)) == TLCEval([i \in 1..n |-> TLCEval(g(i))])
Chance(p) == RandomElement(1..100) <= p

(* ---- paths: sequences of components ---- *)
Dirs == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>}
Bases == {"m", "n"}
LibSeqs == {<<>>, <<<<>>>>, << <<"b">> >>, << <<>>, <<"b">> >>, << <<"b">>, <<>> >>, << <<"a">>, <<"a", "b">> >>}
Steps == {<<>>, <<".">>, <<"a">>, <<"b">>, <<"..">>, <<"..", "b">>, <<"..", "a">>, <<"a", "b">>, <<"..", "..">>, <<"a", "..">>}
(* a path after its dots are resolved; one that leaves the tree leads nowhere *)
Norm(p) == FoldLeft(LAMBDA q, c : CASE q = <<"/">> -> q
                                    [] c = "." -> q
                                    [] c = ".." -> (IF q = <<>> THEN <<"/">> ELSE Front(q))
                                    [] OTHER -> Append(q, c), <<>>, p)
Place(f) == f.dir \o <<f.base \o "." \o f.kind>>
At(F, p) == LET h == {i \in 1..Len(F) : Place(F[i]) = Norm(p)} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
(* a step through a directory that does not exist leads nowhere either *)
RECURSIVE Exists(_, _)
IsDir(F, d) == d = <<>> \/ \E i \in 1..Len(F) : IsPrefix(d, F[i].dir)
Exists(F, p) == \A k \in 1..Len(p) - 1 : LET q == Norm(SubSeq(p, 1, k)) IN q # <<"/">> /\ IsDir(F, q)
Lead(F, d, p) == IF Exists(F, d \o p) THEN At(F, d \o p) ELSE 0
(* the importing file's directory first, then the library path in order *)
Resolve(F, L, dir, p) ==
  LET own == Lead(F, dir, p)
      hits == {k \in 1..Len(L) : Lead(F, L[k], p) # 0}
  IN IF own # 0 THEN own ELSE IF hits = {} THEN 0 ELSE Lead(F, L[CHOOSE k \in hits : \A j \in hits : k <= j], p)

(* ---- what files mean ---- *)
Str(s) == [s |-> s]
Lst(q) == [l |-> q]
Blk(f) == [b |-> f]
Undef == [u |-> 0]                              \* a name nothing provides
NoKey == [k |-> 0]                              \* a member a block does not have
Name(f) == "n" \o ToString(f)
Own(f, r) == (Name(f) :> Str(ToString(f))) @@ (IF r.v THEN ("v" :> Str("v" \o ToString(f))) ELSE <<>>)
Hidden(f, r) == CASE r.hide = "own" -> ("i" \o ToString(f)) :> Str("hidden" \o ToString(f))
                  [] r.hide = "v" -> "v" :> Str("hiddenv" \o ToString(f))
                  [] OTHER -> <<>>
Lines(f, r) == Lst(<<Str(Name(f))>>)            \* stands for the text of the file
(* the names an import provides: one, for the whole, or each of the file's *)
Brought(tab, i) == IF i.to \notin DOMAIN tab THEN <<>>
                   ELSE IF i.fmt = "text" THEN i.name :> [text |-> i.to]
                   ELSE IF i.name # "" THEN i.name :> Blk(tab[i.to].blk)
                   ELSE tab[i.to].vis
(* later imports are nearer *)
Scope(tab, imps, outer) == FoldLeft(LAMBDA s, i : Brought(tab, i) @@ s, outer, imps)
Look(sc, r) ==
  IF r.n \notin DOMAIN sc THEN Undef
  ELSE IF r.m = "" THEN sc[r.n]
  ELSE IF "b" \notin DOMAIN sc[r.n] THEN NoKey
  ELSE IF r.m \in DOMAIN sc[r.n].b THEN sc[r.n].b[r.m] ELSE NoKey
Near(tab, d, sc) == LET s == Scope(tab, d.imps, sc) IN
                    IF d.form = "param" THEN (d.p :> Str("arg")) @@ s ELSE s
DeclVal(tab, d, sc) == LET v == Look(Near(tab, d, sc), d.ref) IN
                       IF "u" \in DOMAIN v \/ "k" \in DOMAIN v THEN v
                       ELSE CASE d.form \in {"block", "inner"} -> Blk("q" :> v)
                              [] d.form = "param" -> Lst(<<Str("arg"), v>>)
                              [] d.form = "op" -> Lst(<<Str("x"), v, Str("y")>>)
                              [] OTHER -> v
Decls(f, r, tab, sc) == [k \in {"r" \o ToString(f) \o "_" \o ToString(j) : j \in 1..Len(r.decls)} |->
                          DeclVal(tab, r.decls[CHOOSE j \in 1..Len(r.decls) : k = "r" \o ToString(f) \o "_" \o ToString(j)], sc)]
OuterScope(r, tab) == Scope(tab, r.imps, <<>>)
InScope(f, r, tab) == Hidden(f, r) @@ Own(f, r) @@ OuterScope(r, tab)
Mean(f, r, tab) ==
  IF r.kind = "toml" THEN [blk |-> Own(f, r), vis |-> Own(f, r)]
  ELSE LET out == OuterScope(r, tab)
           blk == Own(f, r) @@ Decls(f, r, tab, InScope(f, r, tab))
       IN [blk |-> blk, vis |-> blk @@ out]
RECURSIVE Table(_, _)
Table(F, i) == IF i > Len(F) THEN <<>>
               ELSE LET t == TLCEval(Table(F, i + 1)) IN TLCEval((i :> Mean(i, F[i], t)) @@ t)

(* ---- the graph ---- *)
AllImps(r) == r.imps \o FlattenSeq([j \in 1..Len(r.decls) |-> r.decls[j].imps])
Tos(r) == {AllImps(r)[k].to : k \in 1..Len(AllImps(r))}
RECURSIVE Reach(_, _)
Reach(F, X) == LET Y == X \cup UNION {Tos(F[i]) \ {0} : i \in X} IN IF Y = X THEN X ELSE Reach(F, Y)
Cyclic(F) == \E i \in Reach(F, {1}) : i \in Reach(F, Tos(F[i]) \ {0})
Missing(F) == \E i \in Reach(F, {1}) : 0 \in Tos(F[i])

(* ---- drawing ---- *)
Exts == [eu |-> ".eu", toml |-> ".toml"]
Paths == {s \o <<b \o e>> : s \in Steps, b \in Bases, e \in {".eu", ".toml"}}
Leads(F, L, i, ok(_)) == {p \in Paths : ok(Resolve(F, L, F[i].dir, p))}
DrawShape(n) ==
  Pick([1..NFile -> {TRUE}], LAMBDA z :
    GenS(NFile, LAMBDA i : [kind |-> IF i > 2 /\ Chance(25) THEN "toml" ELSE "eu"]))
(* distinct places *)
RECURSIVE Placed(_, _, _)
Placed(kinds, i, acc) ==
  IF i > NFile THEN acc
  ELSE Pick({<<d, b>> \in Dirs \X Bases : \A j \in 2..Len(acc) : ~(acc[j].dir = d /\ acc[j].base = b)}, LAMBDA q :
         Placed(kinds, i + 1, Append(acc, [dir |-> q[1], base |-> q[2], kind |-> kinds[i].kind])))
Import(F, L, i, alias) ==
  LET fwd == TLCEval(Leads(F, L, i, LAMBDA j : j > i)) IN
  IF fwd = {} THEN <<>>
  ELSE Pick(fwd, LAMBDA p : LET j == Resolve(F, L, F[i].dir, p)
                               text == F[j].kind = "toml" /\ Chance(20)
                               al == IF Chance(15) THEN "s" ELSE alias
                           IN << [p |-> p, to |-> j, fmt |-> IF text THEN "text" ELSE "",
                                  name |-> IF text \/ Chance(45) THEN al ELSE ""] >>)
Wrong(F, L, i, bad, alias) ==
  IF bad = "missing" THEN << [p |-> One(Steps) \o <<"zz.eu">>, to |-> 0, fmt |-> "", name |-> ""] >>
  ELSE LET back == TLCEval(Leads(F, L, i, LAMBDA j : j \in 2..i)) IN
       IF back = {} THEN <<>> ELSE Pick(back, LAMBDA p : << [p |-> p, to |-> Resolve(F, L, F[i].dir, p), fmt |-> "", name |-> One({"", alias})] >>)
(* how many ways there are to a file: a name declared twice on the way to one  *)
(* reached in two ways is outside what is decided here                         *)
RECURSIVE Ways(_, _)
Ways(F, i) == IF i = 1 THEN 1
              ELSE FoldLeft(LAMBDA a, j : a + Len(SelectSeq(AllImps(F[j]), LAMBDA m : m.to = i)) * Ways(F, j), 0, [j \in 1..i - 1 |-> j])
Refs(sc) == {[n |-> n, m |-> ""] : n \in {k \in DOMAIN sc : "b" \notin DOMAIN sc[k]}}
            \cup UNION {{[n |-> n, m |-> m] : m \in DOMAIN sc[n].b} : n \in {k \in DOMAIN sc : "b" \in DOMAIN sc[k]}}
            \cup {[n |-> n, m |-> ""] : n \in {k \in DOMAIN sc : "b" \in DOMAIN sc[k] /\ Cardinality(DOMAIN sc[k].b) < 4}}
Unseen(F, sc) == {[n |-> n, m |-> ""] : n \in {Name(j) : j \in 1..NFile} \cup {"v", "s", "zz"} \cup {"i" \o ToString(j) : j \in 1..NFile}}
                 \cup {[n |-> n, m |-> m] : n \in DOMAIN sc, m \in {"zz", "v", "i2", "i3"}}
(* the skeleton of a file: its imports; then, from the last file up, references *)
Skeleton(F, L, i, bad, badAt) ==
  IF F[i].kind = "toml" THEN [imps |-> <<>>, decls |-> <<>>]
  ELSE [imps |-> FlattenSeq(GenS(One(IF i = 1 THEN 1..3 ELSE 0..2), LAMBDA k : Import(F, L, i, "a" \o ToString(i) \o ToString(k))))
                 \o (IF badAt = i /\ bad \in {"missing", "cycle"} /\ Chance(50) THEN Wrong(F, L, i, bad, "w") ELSE <<>>),
        decls |-> GenS(One(IF i = 1 THEN 2..4 ELSE 0..3), LAMBDA k :
                    Pick({"plain", "plain", "decl", "decl", "block", "inner", "param"} \cup (IF i = 1 /\ k = 1 THEN {"op"} ELSE {}), LAMBDA form :
                      [form |-> form, p |-> One({"p", "v", "s"} \cup {Name(j) : j \in 2..NFile}), ref |-> [n |-> "", m |-> ""],
                       imps |-> IF form = "plain" THEN <<>>
                                ELSE IF badAt = i /\ bad \in {"missing", "cycle"} /\ Chance(40) THEN Wrong(F, L, i, bad, "w")
                                ELSE IF form = "param" /\ Chance(40) THEN <<>>
                                ELSE FlattenSeq(GenS(One(1..2), LAMBDA q : Import(F, L, i, "d" \o ToString(i) \o ToString(k) \o ToString(q))))]))]
(* names more than one file may declare only where there is one way to each;  *)
(* the same goes for an alias shared by many                                   *)
Unshare(imps, tag) == [k \in 1..Len(imps) |-> IF imps[k].name = "s" THEN [imps[k] EXCEPT !.name = "u" \o tag \o ToString(k)] ELSE imps[k]]
UnshareDecl(d, tag) == [d EXCEPT !.imps = Unshare(d.imps, tag), !.p = "p"]
Settled(F, i) ==
  LET lone == Ways(F, i) <= 1 /\ \A j \in 1..i - 1 : i \in Tos(F[j]) => Ways(F, j) <= 1
      r == F[i]
  IN IF lone THEN r
     ELSE [r EXCEPT !.imps = Unshare(r.imps, ToString(i)), !.v = FALSE, !.hide = IF r.hide = "v" THEN "no" ELSE r.hide,
                    !.decls = [k \in 1..Len(r.decls) |-> UnshareDecl(r.decls[k], ToString(i) \o "x" \o ToString(k))]]
Plainly(r, i) == [r EXCEPT !.decls = [k \in 1..Len(r.decls) |-> [r.decls[k] EXCEPT !.ref = [n |-> Name(i), m |-> ""]]]]
RECURSIVE Referred(_, _, _, _, _)
Referred(F, i, tab, bad, badAt) ==               \* choose the references, last file first
  IF i = 0 THEN F
  ELSE LET r == F[i]
           sc == TLCEval(InScope(i, r, tab))
           r2 == TLCEval([r EXCEPT !.decls = GenS(Len(r.decls), LAMBDA k :
                   LET d == r.decls[k]
                       s == TLCEval(Near(tab, d, sc))
                       un == {u \in Unseen(F, s) : "u" \in DOMAIN Look(s, u) \/ "k" \in DOMAIN Look(s, u)}
                       (* what the closest import brings, half of the time *)
                       nearer == {q \in Refs(s) : q.n \notin DOMAIN sc \/ sc[q.n] # s[q.n]}
                   IN IF bad = "unseen" /\ badAt = i /\ k = 1 /\ un # {} THEN [d EXCEPT !.ref = One(un)]
                      ELSE [d EXCEPT !.ref = One(IF nearer # {} /\ Chance(60) THEN nearer ELSE Refs(s))])])
           t2 == TLCEval((i :> Mean(i, r2, tab)) @@ tab)
       IN Referred([F EXCEPT ![i] = r2], i - 1, t2, bad, badAt)

DrawFiles(L, bad, badAt) ==
  Pick({1}, LAMBDA z :
    LET kinds == TLCEval(DrawShape(0))
        main == [dir |-> One({<<>>, <<"a">>}), base |-> "main", kind |-> "eu"]
        P == TLCEval(Placed(kinds, 2, <<main>>))
        S == TLCEval([i \in 1..NFile |-> Skeleton(P, L, i, bad, badAt)])
        Q == TLCEval([i \in 1..NFile |-> [dir |-> P[i].dir, base |-> P[i].base, kind |-> P[i].kind, imps |-> S[i].imps, decls |-> S[i].decls,
                                  v |-> Chance(50), hide |-> IF i = 1 \/ P[i].kind = "toml" THEN "no" ELSE One({"no", "own", "v"})]])
        E == TLCEval([i \in 1..NFile |-> IF Q[i].hide = "v" THEN [Q[i] EXCEPT !.v = FALSE] ELSE Q[i]])
        C == IF bad = "cycle" /\ Cyclic(E) THEN E ELSE TLCEval([i \in 1..NFile |-> Settled(E, i)])
    IN IF Cyclic(E) \/ Missing(E) THEN TLCEval([i \in 1..NFile |-> Plainly(E[i], i)])
       ELSE Referred(C, NFile, <<>>, bad, badAt))

(* ---- loading ---- *)
Init == /\ fs = <<>> /\ libs = <<>> /\ todo = <<>> /\ loaded = {} /\ outcome = "" /\ phase = "draw"
Draw == /\ phase = "draw"
        /\ \E L \in {RandomElement(LibSeqs)} : \E bad \in {RandomElement(Bad)} : \E at \in {RandomElement(1..NFile)} :
           \E F \in {DrawFiles(L, bad, IF bad = "unseen" THEN 1 ELSE at)} : fs' = F /\ libs' = L
        /\ todo' = << [f |-> 1, k |-> 1] >> /\ loaded' = {1} /\ phase' = "load" /\ UNCHANGED outcome
(* depth first: the files being loaded and which import of each comes next *)
Load == /\ phase = "load" /\ todo # <<>>
        /\ LET top == Last(todo)
               imps == AllImps(fs[top.f])
               rest == Append(Front(todo), [top EXCEPT !.k = @ + 1])
           IN IF top.k > Len(imps) THEN todo' = Front(todo) /\ UNCHANGED <<loaded, outcome, phase>>
              ELSE LET j == imps[top.k].to IN
                   IF j = 0 THEN outcome' = "missing" /\ phase' = "done" /\ UNCHANGED <<todo, loaded>>
                   ELSE IF \E q \in 1..Len(todo) : todo[q].f = j
                   THEN outcome' = "cycle" /\ phase' = "done" /\ UNCHANGED <<todo, loaded>>
                   ELSE /\ todo' = IF j \in loaded THEN rest ELSE Append(rest, [f |-> j, k |-> 1])
                        /\ loaded' = loaded \cup {j} /\ UNCHANGED <<outcome, phase>>
        /\ UNCHANGED <<fs, libs>>
Finish == /\ phase = "load" /\ todo = <<>> /\ phase' = "done" /\ outcome' = "loaded" /\ UNCHANGED <<fs, libs, todo, loaded>>
Next == Draw \/ Load \/ Finish \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what must hold ---- *)
(* a chain of files being loaded never contains a file twice *)
Chain == \A p, q \in 1..Len(todo) : p # q => todo[p].f # todo[q].f
(* loading ends in an error exactly when there is reason to *)
Loads == phase = "done" => /\ (outcome = "loaded") = ~(Cyclic(fs) \/ Missing(fs))
                           /\ (outcome = "cycle" => Cyclic(fs)) /\ (outcome = "missing" => Missing(fs))
                           /\ (outcome = "loaded" => loaded = Reach(fs, {1}))
OnlyWhatIsReached == phase # "draw" => loaded \subseteq Reach(fs, {1})
(* imports go where the path says *)
Leads2 == phase = "done" => \A i \in 1..Len(fs) : \A k \in 1..Len(AllImps(fs[i])) :
             LET m == AllImps(fs[i])[k] IN m.to = Resolve(fs, libs, fs[i].dir, m.p)
Ok == outcome = "loaded"
Tab == Table(fs, 1)
(* a file means the same whatever surrounds it: alone it has the same members *)
Alone == (phase = "done" /\ Ok) => \A i \in 2..Len(fs) : Table(fs, i)[i] = Tab[i]
(* what one declaration imports is not seen by the others *)
Apart == (phase = "done" /\ Ok) => \A i \in 1..Len(fs) : \A k \in 1..Len(fs[i].decls) :
            LET g == [fs EXCEPT ![i].decls = [j \in 1..Len(fs[i].decls) |-> IF j = k THEN fs[i].decls[j]
                               ELSE [fs[i].decls[j] EXCEPT !.imps = <<>>, !.ref = [n |-> Name(i), m |-> ""]]]]
                nm == "r" \o ToString(i) \o "_" \o ToString(k)
            IN Table(g, i)[i].blk[nm] = Tab[i].blk[nm]
(* nothing hidden is seen from outside *)
Bare(v) == IF "b" \in DOMAIN v THEN TRUE ELSE "u" \in DOMAIN v
HiddenStays == (phase = "done" /\ Ok) => \A i \in 2..Len(fs) : fs[i].hide = "own" => ("i" \o ToString(i)) \notin DOMAIN Tab[i].vis

Emit == phase = "done" =>
  PrintT("@@" \o ToJson([files |-> fs, libs |-> libs, outcome |-> outcome,
                         want |-> IF Ok THEN Tab[1].blk ELSE <<>>, reached |-> Reach(fs, {1})]))
=============================================================================
