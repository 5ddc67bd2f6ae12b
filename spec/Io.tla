--------------------------------- MODULE Io ---------------------------------
(* IO programs: actions are values; the driver performs them one at a time, *)
(* in the order the monad gives, feeding each result to what was bound to   *)
(* it. State: what is being performed, the frames waiting for its result,   *)
(* the effects so far. A program ends with a value, or at its first         *)
(* failure: io.fail, a forbidden action, a timeout, or an error in a value  *)
(* that an action needs. Values that nothing needs are never computed.      *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth

VARIABLES phase, seed, prog, allow, ctl, stack, log, out
vars == <<phase, seed, prog, allow, ctl, stack, log, out>>

Sub(s, k) == << (171 * s[1] + 1123 * k + 7) % 30269, (172 * s[2] + 3571 * k + 11) % 30307 >>
Num(s, n) == ((s[1] + 3 * s[2]) % 30323) % n
Of(s, seq) == seq[1 + Num(s, Len(seq))]

(* ---- values: s text, i number, l list, r command result, boom, act ---- *)
Txt(t) == [k |-> "s", v |-> t]
IntV(n) == [k |-> "i", v |-> n]
Lst(xs) == [k |-> "l", v |-> xs]
Boom == [k |-> "boom"]
Res(o, e, c) == [k |-> "r", out |-> o, err |-> e, code |-> c]

(* ---- expressions ---- *)
Lit(v) == [e |-> "lit", v |-> v]
Ref(i) == [e |-> "ref", i |-> i]
Fld(i, n) == [e |-> "fld", i |-> i, n |-> n]
ListE(xs) == [e |-> "list", xs |-> xs]

Field(r, n) == IF r.k = "boom" THEN Boom
               ELSE CASE n = "stdout" -> Txt(r.out) [] n = "stderr" -> Txt(r.err) [] OTHER -> IntV(r.code)
RECURSIVE Val(_, _)
Val(e, env) == CASE e.e = "lit" -> e.v
                 [] e.e = "ref" -> env[e.i]
                 [] e.e = "fld" -> Field(env[e.i], e.n)
                 [] e.e = "list" -> Lst([j \in 1..Len(e.xs) |-> Val(e.xs[j], env)])

(* a text: pieces, each a literal or something interpolated *)
RECURSIVE Text(_, _, _)
Text(ps, env, n) == IF n = 0 THEN Txt("")
                    ELSE LET a == Text(ps, env, n - 1) b == Val(ps[n], env)
                         IN IF a.k = "boom" \/ b.k = "boom" THEN Boom
                            ELSE Txt(a.v \o (IF b.k = "i" THEN ToString(b.v) ELSE b.v))
Str(ps, env) == Text(ps, env, Len(ps))

(* ---- what a command does: it notes its arguments and input, prints its   *)
(* two texts and then its input, and exits with its code ---- *)
Strs(pss, env) == [j \in 1..Len(pss) |-> Str(pss[j], env)]
Booms(vs) == \E j \in 1..Len(vs) : vs[j].k = "boom"
Input(c, env) == IF c.stdin = <<>> THEN Txt("") ELSE Str(c.stdin[1], env)
Parts(c, env) == << Str(c.out, env), Str(c.err, env), Input(c, env) >> \o Strs(c.args, env)
Note(c, env) == [id |-> c.id, args |-> [j \in 1..Len(c.args) |-> Str(c.args[j], env).v], stdin |-> Input(c, env).v]
Outcome(c, env) ==
    CASE c.what = "missing" -> Res("", "No such file or directory (os error 2)", 127)
      [] c.what = "noexec" -> Res("", "Permission denied (os error 13)", 126)
      [] c.what = "killed" -> Res("", "", -1)
      [] OTHER -> Res(Str(c.out, env).v \o Input(c, env).v, Str(c.err, env).v, c.code)
Needs(c, env) == CASE c.what \in {"missing", "noexec"} -> << Input(c, env) >> \o Strs(c.args, env) [] c.what = "killed" -> <<>> [] OTHER -> Parts(c, env)
Leaves(c) == c.what \in {"act", "hang"}

(* ---- drawing a program; tys: what is known of each variable ---- *)
Lits == << "a", "b c", "", "null", "0", "x  y", "-n", "*", "$HOME", "é✓", "true", "a=b", "\\", "%s", "#", "~", " lead", "trail ", "a  " >>
Having(tys, t) == SelectSeq([j \in 1..Len(tys) |-> j], LAMBDA j : tys[j] = t)
Piece(s, tys) ==
    LET rs == Having(tys, "r") ts == Having(tys, "s") is == Having(tys, "i")
        n == Num(s, 10) q == Sub(s, 1)
    IN CASE n < 4 /\ rs # <<>> -> Fld(Of(q, rs), Of(Sub(s, 2), << "stdout", "stdout", "stderr", "exit-code" >>))
         [] n < 6 /\ ts # <<>> -> Ref(Of(q, ts))
         [] n = 6 /\ is # <<>> -> Ref(Of(q, is))
         [] n = 7 /\ Num(q, 12) = 0 -> Lit(Boom)
         [] OTHER -> Lit(Txt(Of(q, Lits)))
GenText(s, tys) == [j \in 1..Of(Sub(s, 9), << 1, 1, 1, 2, 3, 0 >>) |-> Piece(Sub(s, j), tys)]

RECURSIVE GenV(_, _, _)
GenV(s, d, tys) ==
    LET n == Num(s, 12) rs == Having(tys, "r") q == Sub(s, 1)
    IN CASE n < 4 /\ tys # <<>> -> LET i == Of(q, [j \in 1..Len(tys) |-> j]) IN [x |-> Ref(i), ty |-> tys[i]]
         [] n < 7 /\ rs # <<>> -> LET f == Of(Sub(s, 2), << "stdout", "stderr", "exit-code" >>)
                                  IN [x |-> Fld(Of(q, rs), f), ty |-> IF f = "exit-code" THEN "i" ELSE "s"]
         [] n = 7 /\ d > 0 -> [x |-> ListE([j \in 1..Num(q, 3) |-> GenV(Sub(s, 2 + j), d - 1, tys).x]), ty |-> "l"]
         [] n = 8 -> [x |-> Lit(IntV(Num(q, 4))), ty |-> "i"]
         [] n = 9 /\ Num(q, 3) = 0 -> [x |-> Lit(Boom), ty |-> "boom"]
         [] OTHER -> [x |-> Lit(Txt(Of(q, Lits))), ty |-> "s"]

GenCmd(s, p, tys) ==
    LET w == Num(Sub(s, 1), 24)
        what == CASE w = 0 -> "missing" [] w = 1 -> "noexec" [] w = 2 -> "killed" [] w = 3 -> "hang" [] OTHER -> "act"
        via == CASE what \in {"missing", "noexec"} -> Of(Sub(s, 2), << "exec", "exec-with" >>)
                 [] what = "killed" -> "shell" [] what = "hang" -> "shell-with"
                 [] OTHER -> Of(Sub(s, 2), << "shell", "exec", "shell-with", "exec-with" >>)
        fed == via \in {"shell-with", "exec-with"}
    IN [t |-> "cmd", what |-> what, via |-> via, id |-> p,
        code |-> Of(Sub(s, 3), << 0, 0, 0, 1, 3, 255 >>),
        out |-> GenText(Sub(s, 4), tys), err |-> GenText(Sub(s, 5), tys),
        args |-> [j \in 1..Num(Sub(s, 6), 4) |-> GenText(Sub(Sub(s, 7), j), tys)],
        spine |-> Of(Sub(s, 10), << "literal", "append", "cons", "map" >>),
        stdin |-> IF fed /\ Num(Sub(s, 8), 4) > 0 THEN << GenText(Sub(s, 9), tys) >> ELSE <<>>]

Names == << "1", "2", "3", "4", "5" >>
Lub(a, b) == IF a = b THEN a ELSE "any"
RECURSIVE Gen(_, _, _, _), GenSteps(_, _, _, _, _, _)
GenSteps(s, d, p, tys, j, n) ==
    IF j > n THEN [as |-> <<>>, tys |-> tys]
    ELSE LET g == Gen(Sub(s, j), d, p \o Names[j], tys)
             r == GenSteps(s, d, p, Append(tys, g.ty), j + 1, n)
         IN [as |-> <<g.a>> \o r.as, tys |-> r.tys]
Gen(s, d, p, tys) ==
    LET n == Num(s, IF d = 0 THEN 8 ELSE 24)
        A == Gen(Sub(s, 1), d - 1, p \o "a", tys)
        B == Gen(Sub(s, 2), d - 1, p \o "b", tys)
        V == GenV(Sub(s, 3), 2, tys)
        K(ty) == Gen(Sub(s, 4), d - 1, p \o "k", Append(tys, ty))
        rs == Having(tys, "r")
        several == [j \in 1..Num(Sub(s, 5), 4) |-> Gen(Sub(s, 10 + j), d - 1, p \o Names[j], tys).a]
        ws == [j \in 1..Num(Sub(s, 5), 4) |-> GenText(Sub(s, 20 + j), tys)]
    IN CASE n < 5 -> [a |-> GenCmd(s, p, tys), ty |-> "r"]
         [] n = 5 -> [a |-> [t |-> "ret", v |-> V.x], ty |-> V.ty]
         [] n = 6 -> [a |-> [t |-> "ret", v |-> V.x], ty |-> V.ty]
         [] n = 7 -> IF Num(Sub(s, 6), 2) = 0 THEN [a |-> [t |-> "fail", msg |-> GenText(Sub(s, 7), tys)], ty |-> "any"]
                     ELSE IF rs # <<>> THEN [a |-> [t |-> "check", i |-> Of(Sub(s, 6), rs)], ty |-> "r"]
                     ELSE [a |-> GenCmd(s, p, tys), ty |-> "r"]
         [] n \in 8..12 -> LET g == GenSteps(Sub(s, 8), d - 1, p, tys, 1, 1 + Num(Sub(s, 5), 3))
                               v == GenV(Sub(s, 9), 2, g.tys)
                           IN [a |-> [t |-> "block", steps |-> g.as, v |-> v.x, from |-> Len(tys)], ty |-> v.ty]
         [] n = 13 -> IF A.ty = "r" THEN [a |-> [t |-> "map", fn |-> "stdout", a |-> A.a], ty |-> "s"]
                      ELSE [a |-> [t |-> "map", fn |-> "wrap", a |-> A.a], ty |-> "l"]
         [] n = 14 -> [a |-> [t |-> "then", a |-> A.a, b |-> B.a], ty |-> B.ty]
         [] n \in {15, 16} -> LET k == K(A.ty) IN [a |-> [t |-> "bind", via |-> Of(Sub(s, 6), << "bind", "and-then" >>),
                                                         a |-> A.a, k |-> k.a, at |-> Len(tys) + 1], ty |-> k.ty]
         [] n = 17 -> [a |-> [t |-> "join", a |-> A.a], ty |-> A.ty]
         [] n \in {18, 19} -> [a |-> [t |-> "seq", as |-> several], ty |-> "l"]
         [] n = 20 -> [a |-> [t |-> "mapm", xs |-> ws, k |-> K("s").a, at |-> Len(tys) + 1], ty |-> "l"]
         [] n = 21 -> [a |-> [t |-> "filterm", xs |-> ws, k |-> K("s").a, at |-> Len(tys) + 1, yes |-> Of(Sub(s, 6), Lits)], ty |-> "l"]
         [] n = 22 -> IF A.ty = "r" THEN [a |-> [t |-> "checked", a |-> A.a], ty |-> "r"]
                      ELSE [a |-> [t |-> "then", a |-> A.a, b |-> B.a], ty |-> B.ty]
         [] OTHER -> IF rs # <<>> THEN [a |-> [t |-> "if", i |-> Of(Sub(s, 6), rs), a |-> A.a, b |-> B.a], ty |-> Lub(A.ty, B.ty)]
                     ELSE [a |-> [t |-> "then", a |-> A.a, b |-> B.a], ty |-> B.ty]

(* filter-m keeps x when the action's result, read as a flag, says so: the   *)
(* continuation's value is compared with `yes`                               *)
Same(v, t) == v.k = "s" /\ v.v = t
Keep(acc, elt, flag, yes) ==      \* acc: a list or boom, elt in front
    IF flag.k = "boom" THEN Boom
    ELSE IF Same(flag, yes) THEN (IF acc.k = "boom" THEN [k |-> "cons-boom"] ELSE Lst(<<elt>> \o acc.v)) ELSE acc
Applied(fn, v) == IF fn = "stdout" THEN Field(v, "stdout") ELSE Lst(<<v>>)

(* ---- the machine ---- *)
Run(a, env) == [m |-> "run", a |-> a, env |-> env]
Give(v) == [m |-> "val", v |-> v]
End(o) == [m |-> "end", o |-> o]
Stop(kind, t) == [kind |-> kind, text |-> t]
Push(f) == stack' = <<f>> \o stack
Pop == stack' = Tail(stack)

Effect(a, env) ==
    IF ~allow THEN ctl' = End(Stop("forbidden", "")) /\ UNCHANGED log
    ELSE IF a.t = "fail" THEN LET m == Str(a.msg, env)
                              IN ctl' = End(IF m.k = "boom" THEN Stop("error", "") ELSE Stop("fail", m.v)) /\ UNCHANGED log
    ELSE IF Booms(Needs(a, env)) THEN ctl' = End(Stop("error", "")) /\ UNCHANGED log
    ELSE /\ log' = IF Leaves(a) THEN Append(log, Note(a, env)) ELSE log
         /\ ctl' = IF a.what = "hang" THEN End(Stop("timeout", "")) ELSE Give(Outcome(a, env))
Check(v) == IF v.k = "boom" THEN ctl' = End(Stop("error", ""))
            ELSE IF v.code = 0 THEN ctl' = Give(v)
            ELSE ctl' = End(IF allow THEN Stop("fail", v.err) ELSE Stop("forbidden", ""))

Perform ==
    LET a == ctl.a env == ctl.env IN
    CASE a.t \in {"cmd", "fail"} -> Effect(a, env) /\ UNCHANGED stack
      [] a.t = "ret" -> ctl' = Give(Val(a.v, env)) /\ UNCHANGED <<stack, log>>
      [] a.t = "check" -> Check(env[a.i]) /\ UNCHANGED <<stack, log>>
      [] a.t = "block" -> ctl' = Run(a.steps[1], env) /\ Push([f |-> "block", rest |-> Tail(a.steps), v |-> a.v, env |-> env]) /\ UNCHANGED log
      [] a.t = "map" -> ctl' = Run(a.a, env) /\ Push([f |-> "map", fn |-> a.fn]) /\ UNCHANGED log
      [] a.t = "then" -> ctl' = Run(a.a, env) /\ Push([f |-> "then", a |-> a.b, env |-> env]) /\ UNCHANGED log
      [] a.t = "bind" -> ctl' = Run(a.a, env) /\ Push([f |-> "bind", a |-> a.k, env |-> env]) /\ UNCHANGED log
      [] a.t = "join" -> ctl' = Give([k |-> "act", a |-> a.a, env |-> env]) /\ Push([f |-> "join"]) /\ UNCHANGED log
      [] a.t = "checked" -> ctl' = Run(a.a, env) /\ Push([f |-> "check"]) /\ UNCHANGED log
      [] a.t = "if" -> /\ ctl' = IF env[a.i].k = "boom" THEN End(Stop("error", ""))
                                 ELSE Run(IF env[a.i].code = 0 THEN a.a ELSE a.b, env)
                       /\ UNCHANGED <<stack, log>>
      [] a.t = "seq" -> IF a.as = <<>> THEN ctl' = Give(Lst(<<>>)) /\ UNCHANGED <<stack, log>>
                        ELSE ctl' = Run(a.as[1], env) /\ Push([f |-> "seq", rest |-> Tail(a.as), env |-> env, got |-> <<>>]) /\ UNCHANGED log
      [] a.t \in {"mapm", "filterm"} ->
            LET xs == [j \in 1..Len(a.xs) |-> Str(a.xs[j], env)] IN
            IF xs = <<>> THEN ctl' = Give(Lst(<<>>)) /\ UNCHANGED <<stack, log>>
            ELSE ctl' = Run(a.k, Append(env, xs[1])) /\ Push([f |-> a.t, a |-> a, xs |-> xs, env |-> env, got |-> <<>>]) /\ UNCHANGED log

RECURSIVE Kept(_, _, _, _)
Kept(xs, flags, yes, j) == IF j > Len(xs) THEN Lst(<<>>) ELSE Keep(Kept(xs, flags, yes, j + 1), xs[j], flags[j], yes)
Resume ==
    LET f == stack[1] v == ctl.v IN
    CASE f.f = "block" -> LET env == Append(f.env, v) IN
                          /\ IF f.rest = <<>> THEN ctl' = Give(Val(f.v, env)) /\ Pop
                             ELSE ctl' = Run(f.rest[1], env) /\ stack' = <<[f EXCEPT !.rest = Tail(@), !.env = env]>> \o Tail(stack)
                          /\ UNCHANGED log
      [] f.f = "map" -> ctl' = Give(Applied(f.fn, v)) /\ Pop /\ UNCHANGED log
      [] f.f = "then" -> ctl' = Run(f.a, f.env) /\ Pop /\ UNCHANGED log
      [] f.f = "bind" -> ctl' = Run(f.a, Append(f.env, v)) /\ Pop /\ UNCHANGED log
      [] f.f = "join" -> ctl' = Run(v.a, v.env) /\ Pop /\ UNCHANGED log
      [] f.f = "check" -> Check(v) /\ Pop /\ UNCHANGED log
      [] f.f = "seq" -> /\ IF f.rest = <<>> THEN ctl' = Give(Lst(Append(f.got, v))) /\ Pop
                           ELSE ctl' = Run(f.rest[1], f.env) /\ stack' = <<[f EXCEPT !.rest = Tail(@), !.got = Append(@, v)]>> \o Tail(stack)
                        /\ UNCHANGED log
      [] f.f \in {"mapm", "filterm"} ->
            LET got == Append(f.got, v) IN
            /\ IF Len(got) = Len(f.xs)
               THEN ctl' = Give(IF f.f = "mapm" THEN Lst(got) ELSE Kept(f.xs, got, f.a.yes, 1)) /\ Pop
               ELSE ctl' = Run(f.a.k, Append(f.env, f.xs[Len(got) + 1])) /\ stack' = <<[f EXCEPT !.got = got]>> \o Tail(stack)
            /\ UNCHANGED log

(* the value that is left is written out: everything in it is needed now *)
RECURSIVE Whole(_)
Whole(v) == CASE v.k \in {"boom", "cons-boom", "act"} -> FALSE
              [] v.k = "l" -> \A j \in 1..Len(v.v) : Whole(v.v[j])
              [] OTHER -> TRUE

Draw == /\ phase = "draw"
        /\ \E s \in { <<RandomElement(1..30268), RandomElement(1..30306)>> } :
           \E g \in { TLCEval(Gen(s, Depth, "p", <<>>)) } :
           /\ seed' = s /\ prog' = g.a /\ allow' = (Num(Sub(s, 77), 6) # 0) /\ ctl' = Run(g.a, <<>>)
        /\ stack' = <<>> /\ log' = <<>> /\ phase' = "go" /\ UNCHANGED out
Step == /\ phase = "go" /\ ctl.m # "end"
        /\ IF ctl.m = "run" THEN Perform
           ELSE IF stack # <<>> THEN Resume
           ELSE ctl' = End(IF Whole(ctl.v) THEN [kind |-> "value", v |-> ctl.v] ELSE Stop("error", "")) /\ UNCHANGED <<stack, log>>
        /\ UNCHANGED <<phase, seed, prog, allow, out>>
Done == phase = "go" /\ ctl.m = "end" /\ phase' = "done" /\ out' = ctl.o /\ UNCHANGED <<seed, prog, allow, ctl, stack, log>>
Again == phase = "done" /\ phase' = "draw" /\ UNCHANGED <<seed, prog, allow, ctl, stack, log, out>>

Init == phase = "draw" /\ seed = <<1, 1>> /\ prog = 0 /\ allow = FALSE /\ ctl = [m |-> "end"] /\ stack = <<>> /\ log = <<>> /\ out = 0
Next == Draw \/ Step \/ Done \/ Again
Spec == Init /\ [][Next]_vars

(* ---- the same program by the monad's laws alone: everything is bind ---- *)
Fine == Stop("", "")
R(o, v, l) == [o |-> o, v |-> v, log |-> l]
RECURSIVE Den(_, _, _, _), DenSteps(_, _, _, _, _, _), DenAll(_, _, _, _, _), DenEach(_, _, _, _, _, _)
Den(a, env, l, ok) ==
    LET checked(v, m) == IF v.k = "boom" THEN R(Stop("error", ""), 0, m) ELSE IF v.code = 0 THEN R(Fine, v, m)
                         ELSE R(IF ok THEN Stop("fail", v.err) ELSE Stop("forbidden", ""), 0, m)
    IN CASE a.t \in {"cmd", "fail"} /\ ~ok -> R(Stop("forbidden", ""), 0, l)
      [] a.t = "fail" /\ ok -> LET m == Str(a.msg, env) IN R(IF m.k = "boom" THEN Stop("error", "") ELSE Stop("fail", m.v), 0, l)
      [] a.t = "cmd" /\ ok -> IF Booms(Needs(a, env)) THEN R(Stop("error", ""), 0, l)
                              ELSE LET m == IF Leaves(a) THEN Append(l, Note(a, env)) ELSE l
                                   IN IF a.what = "hang" THEN R(Stop("timeout", ""), 0, m) ELSE R(Fine, Outcome(a, env), m)
      [] a.t = "ret" -> R(Fine, Val(a.v, env), l)
      [] a.t = "check" -> checked(env[a.i], l)
      [] a.t = "if" -> IF env[a.i].k = "boom" THEN R(Stop("error", ""), 0, l) ELSE Den(IF env[a.i].code = 0 THEN a.a ELSE a.b, env, l, ok)
      [] a.t = "join" -> Den(a.a, env, l, ok)
      [] a.t = "block" -> DenSteps(a.steps, a.v, env, l, ok, 1)
      [] a.t = "seq" -> DenAll(a.as, env, l, ok, 1)
      [] a.t \in {"mapm", "filterm"} ->
            LET xs == [j \in 1..Len(a.xs) |-> Str(a.xs[j], env)] r == DenEach(a.k, xs, env, l, ok, 1)
            IN IF r.o # Fine \/ a.t = "mapm" THEN r ELSE R(Fine, Kept(xs, r.v.v, a.yes, 1), r.log)
      [] OTHER -> LET r == Den(a.a, env, l, ok) IN
                  IF r.o # Fine THEN r
                  ELSE CASE a.t = "map" -> R(Fine, Applied(a.fn, r.v), r.log)
                         [] a.t = "then" -> Den(a.b, env, r.log, ok)
                         [] a.t = "bind" -> Den(a.k, Append(env, r.v), r.log, ok)
                         [] a.t = "checked" -> checked(r.v, r.log)
DenSteps(as, v, env, l, ok, j) ==
    IF j > Len(as) THEN R(Fine, Val(v, env), l)
    ELSE LET r == Den(as[j], env, l, ok) IN IF r.o # Fine THEN r ELSE DenSteps(as, v, Append(env, r.v), r.log, ok, j + 1)
DenAll(as, env, l, ok, j) ==
    IF j > Len(as) THEN R(Fine, Lst(<<>>), l)
    ELSE LET r == Den(as[j], env, l, ok) IN
         IF r.o # Fine THEN r
         ELSE LET q == DenAll(as, env, r.log, ok, j + 1) IN IF q.o # Fine THEN q ELSE R(Fine, Lst(<<r.v>> \o q.v.v), q.log)
DenEach(k, xs, env, l, ok, j) ==
    IF j > Len(xs) THEN R(Fine, Lst(<<>>), l)
    ELSE LET r == Den(k, Append(env, xs[j]), l, ok) IN
         IF r.o # Fine THEN r
         ELSE LET q == DenEach(k, xs, env, r.log, ok, j + 1) IN IF q.o # Fine THEN q ELSE R(Fine, Lst(<<r.v>> \o q.v.v), q.log)
Laws == phase = "done" =>
    LET r == Den(prog, <<>>, <<>>, allow) IN
    /\ r.log = log
    /\ IF r.o # Fine THEN out = r.o ELSE out = IF Whole(r.v) THEN [kind |-> "value", v |-> r.v] ELSE Stop("error", "")

(* ---- what the driver owes ---- *)
Permission == ~allow => log = <<>>
OneAtATime == [][Len(log') - Len(log) \in {0, 1} \/ phase = "draw"]_vars
NeverUndone == [][phase = "draw" \/ SubSeq(log', 1, Len(log)) = log]_vars
NothingAfterwards == [][phase = "go" /\ ctl.m = "end" => log' = log]_vars

Emit == phase = "done" => PrintT("@@" \o ToJson([prog |-> prog, allow |-> allow, log |-> log, out |-> out]))
=============================================================================
