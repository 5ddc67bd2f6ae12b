-------------------------------- MODULE Cal --------------------------------
(* Zoned datetimes: the civil calendar, time zones, reading and writing, and   *)
(* the order of instants.  A datetime is [z |-> [y, mo, d, h, mi, s, f, o]]:    *)
(* local fields, nanoseconds f and an offset of o minutes.                     *)
EXTENDS Vals

CONSTANTS Steps, Ops
VARIABLES regs, prog
vars == <<regs, prog>>
Bad == [bad |-> 0]
IsBad(v) == Has(v, "bad")
IsD(v) == Has(v, "z")

----------------------------------------------------------------------------
Leap(y) == (y % 4 = 0 /\ y % 100 /= 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
DateOk(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
TimeOk(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
(* days since 1970-01-01: counted, not by a closed formula *)
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
Before(y) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400
Months(y, m) == FoldLeft(LAMBDA a, k : a + MonthLen(y, k), 0, [k \in 1..(m - 1) |-> k])
Epoch0 == Before(1970)
Days(y, m, d) == Before(y) - Epoch0 + Months(y, m) + d - 1
RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, n) == IF n < MonthLen(y, m) THEN <<m, n + 1>> ELSE MonthOf(y, m + 1, n - MonthLen(y, m))
RECURSIVE YearFrom(_, _)
YearFrom(y, n) == IF n < 0 THEN YearFrom(y - 1, n + YearDays(y - 1)) ELSE IF n >= YearDays(y) THEN YearFrom(y + 1, n - YearDays(y)) ELSE <<y, n>>
Civil(n) == LET g == 1970 + n \div 366  a == YearFrom(g, n - (Before(g) - Epoch0))  b == MonthOf(a[1], 1, a[2]) IN <<a[1], b[1], b[2]>>

Z(y, mo, d, h, mi, s, f, o) == [z |-> [y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s, f |-> f, o |-> o]]
(* the instant: day, second of the day in universal time, nanosecond *)
Instant(z) == LET t == z.h * 3600 + z.mi * 60 + z.s - z.o * 60 IN <<Days(z.y, z.mo, z.d) + t \div 86400, t % 86400, z.f>>
Cmp(a, b) == IF a[1] /= b[1] THEN a[1] - b[1] ELSE IF a[2] /= b[2] THEN a[2] - b[2] ELSE a[3] - b[3]
FromInstant(q, o) == LET t == q[2] + o * 60  c == Civil(q[1] + t \div 86400)  u == t % 86400 IN
  Z(c[1], c[2], c[3], u \div 3600, (u \div 60) % 60, u % 60, q[3], o)

----------------------------------------------------------------------------
(* zones of time: an offset, or rules for the years 2008 to 2036               *)
WeekDay(n) == (n + 4) % 7                      \* Sunday is 0
LastSunday(y, m) == LET n == Days(y, m, MonthLen(y, m)) IN n - WeekDay(n)
NthSunday(y, m, k) == LET n == Days(y, m, 1) IN n + ((7 - WeekDay(n)) % 7) + 7 * (k - 1)
(* [std, dst, the local minute (by the clock before) at which summer begins and ends] *)
Rule(name, y) ==
  CASE name = "Europe/London" -> [std |-> 0, dst |-> 60, b |-> <<LastSunday(y, 3), 60>>, e |-> <<LastSunday(y, 10), 120>>]
    [] name = "Europe/Paris" -> [std |-> 60, dst |-> 120, b |-> <<LastSunday(y, 3), 120>>, e |-> <<LastSunday(y, 10), 180>>]
    [] name = "America/New_York" -> [std |-> -300, dst |-> -240, b |-> <<NthSunday(y, 3, 2), 120>>, e |-> <<NthSunday(y, 11, 1), 120>>]
    [] name = "Australia/Lord_Howe" -> [std |-> 630, dst |-> 660, b |-> <<NthSunday(y, 10, 1), 120>>, e |-> <<NthSunday(y, 4, 1), 120>>]
Fixed(name) == CASE name \in {"UTC", "Etc/UTC", "Africa/Abidjan"} -> 0 [] name = "Asia/Kolkata" -> 330 [] name = "Asia/Kathmandu" -> 345 [] name = "Asia/Tokyo" -> 540
FixedNames == {"UTC", "Etc/UTC", "Africa/Abidjan", "Asia/Kolkata", "Asia/Kathmandu", "Asia/Tokyo"}
RuleNames == {"Europe/London", "Europe/Paris", "America/New_York", "Australia/Lord_Howe"}
Since(p, n, m) == (n - p[1]) * 1440 + m - p[2]    \* minutes since p
(* the offset at a local time, the earlier where it occurs twice; 9999 where it does not occur *)
Offset(name, y, n, m) ==
  IF name \in FixedNames THEN Fixed(name) ELSE
  LET r == Rule(name, y)  g == r.dst - r.std  b == Since(r.b, n, m)  e == Since(r.e, n, m) IN
  IF b >= 0 /\ b < g THEN 9999
  ELSE IF r.b[1] < r.e[1] THEN (IF b >= g /\ e < 0 THEN r.dst ELSE r.std)
  ELSE (IF e < 0 \/ b >= g THEN r.dst ELSE r.std)
(* a zone written out: [nm |-> name] or [of |-> minutes, st |-> style] *)
ZoneOk(w) == Has(w, "nm") \/ Has(w, "of")
Zdt(y, mo, d, h, mi, s, f, w) ==
  IF ~DateOk(y, mo, d) \/ ~TimeOk(h, mi, s) \/ Has(w, "ng") THEN Bad
  ELSE IF Has(w, "of") THEN Z(y, mo, d, h, mi, s, f, w.of)
  ELSE LET o == Offset(w.nm, y, Days(y, mo, d), h * 60 + mi) IN IF o = 9999 THEN Bad ELSE Z(y, mo, d, h, mi, s, f, o)

----------------------------------------------------------------------------
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Dig(n \div 10) \o <<48 + (n % 10)>>
Zeros(k) == [i \in 1..k |-> 48]
P(n, w) == LET q == TLCEval(Dig(n)) IN (IF Len(q) < w THEN Zeros(w - Len(q)) ELSE <<>>) \o q
Abs(n) == IF n < 0 THEN -n ELSE n
Year(y) == IF y < 0 THEN <<45>> \o P(-y, 4) ELSE IF y > 9999 THEN <<43>> \o P(y, 5) ELSE P(y, 4)
Frac(f) == IF f = 0 THEN <<>> ELSE IF f % 1000000 = 0 THEN <<46>> \o P(f \div 1000000, 3) ELSE IF f % 1000 = 0 THEN <<46>> \o P(f \div 1000, 6) ELSE <<46>> \o P(f, 9)
Off(o, colon) == <<IF o < 0 THEN 45 ELSE 43>> \o P(Abs(o) \div 60, 2) \o (IF colon THEN <<58>> ELSE <<>>) \o P(Abs(o) % 60, 2)
DateT(z) == Year(z.y) \o <<45>> \o P(z.mo, 2) \o <<45>> \o P(z.d, 2)
TimeT(z) == P(z.h, 2) \o <<58>> \o P(z.mi, 2) \o <<58>> \o P(z.s, 2) \o Frac(z.f)
Format(z) == DateT(z) \o <<84>> \o TimeT(z) \o Off(z.o, TRUE)
Shown(z) == DateT(z) \o <<32>> \o TimeT(z) \o <<32>> \o Off(z.o, TRUE)
Fields(z) == [fl |-> [y |-> z.y, mo |-> z.mo, d |-> z.d, h |-> z.h, mi |-> z.mi, ms |-> z.s * 1000 + z.f \div 1000000, o |-> Off(z.o, FALSE)]]

(* texts that name a datetime: fields, and the form they are written in        *)
Forms == {"rfc", "rfcz", "lower", "space", "naive", "nspace", "date", "basic", "basicm", "basicd"}
Fraction(f, k) == SubSeq(P(f, 9), 1, k)        \* the first k digits
Text(c, form, k) ==
  LET dt == P(c.y, 4) \o <<45>> \o P(c.mo, 2) \o <<45>> \o P(c.d, 2)
      bd == P(c.y, 4) \o P(c.mo, 2) \o P(c.d, 2)
      tm == P(c.h, 2) \o <<58>> \o P(c.mi, 2) \o <<58>> \o P(c.s, 2) \o (IF k = 0 THEN <<>> ELSE <<46>> \o Fraction(c.f, k))
      of == Off(c.o, TRUE) IN
  CASE form = "rfc" -> dt \o <<84>> \o tm \o of [] form = "rfcz" -> dt \o <<84>> \o tm \o <<90>> [] form = "lower" -> dt \o <<116>> \o tm \o <<122>>
    [] form = "space" -> dt \o <<32>> \o tm \o of [] form = "naive" -> dt \o <<84>> \o tm [] form = "nspace" -> dt \o <<32>> \o tm [] form = "date" -> dt
    [] form = "basic" -> bd \o <<84>> \o P(c.h, 2) \o P(c.mi, 2) \o P(c.s, 2) [] form = "basicm" -> bd \o <<84>> \o P(c.h, 2) \o P(c.mi, 2) [] OTHER -> bd
Zoned(form) == form \in {"rfc", "space"}
Timed(form) == form \notin {"date", "basicd"}
Meaning(c, form, k) ==
  IF ~DateOk(c.y, c.mo, c.d) \/ (Timed(form) /\ ~TimeOk(c.h, c.mi, IF form = "basicm" THEN 0 ELSE c.s)) THEN Bad
  ELSE LET f == IF k = 0 \/ ~Timed(form) \/ form \in {"basic", "basicm"} THEN 0 ELSE LET e == 9 - k IN c.f - (c.f % (10 ^ e)) IN
       Z(c.y, c.mo, c.d, IF Timed(form) THEN c.h ELSE 0, IF Timed(form) THEN c.mi ELSE 0, IF Timed(form) /\ form /= "basicm" THEN c.s ELSE 0, f, IF Zoned(form) THEN c.o ELSE 0)

----------------------------------------------------------------------------
Odd(p, a, b) == IF Chance(p) THEN a ELSE b
RYear(z) == RandomElement({2024, 2023, 2000, 1900, 2100, 1970, 1969, 2008, 2036, 1600, 1, 4, 9999, 2020, 1999} \cup 2009..2012)
RMonth(z) == Pick(1..30, LAMBDA c : IF c = 1 THEN RandomElement({0, 13, 99}) ELSE IF c <= 8 THEN 2 ELSE RandomElement(1..12))
RDay(z) == Pick(1..30, LAMBDA c : IF c = 1 THEN RandomElement({0, 32, 60}) ELSE IF c <= 10 THEN RandomElement(28..31) ELSE RandomElement(1..31))
ROff(z) == RandomElement({0, 0, 60, 120, -300, -240, 330, 345, 630, -210, 720, 840, -720, 1, -1, 1439, -1439, 59, -59})
RNano(z) == RandomElement({0, 0, 500000000, 123000000, 1000000, 999000000, 123456000, 123456789, 1, 999999999, 10000000})
RHour(z) == Pick(1..40, LAMBDA c : IF c = 1 THEN RandomElement({24, 25}) ELSE RandomElement({0, 1, 2, 3, 12, 22, 23} \cup 0..23))
RMin(z) == Pick(1..40, LAMBDA c : IF c = 1 THEN 60 ELSE RandomElement({0, 1, 29, 30, 59} \cup 0..59))
RSec(z) == Pick(1..40, LAMBDA c : IF c = 1 THEN RandomElement({61, 75}) ELSE RandomElement({0, 1, 30, 58, 59}))
(* fields, mostly of a real time *)
RC(z) == Pick({0}, LAMBDA u : [y |-> RYear(0), mo |-> RMonth(0), d |-> RDay(0), h |-> RHour(0), mi |-> RMin(0), s |-> RSec(0), f |-> RNano(0), o |-> ROff(0)])
RZone(z) == Pick(1..12, LAMBDA c : CASE c <= 4 -> [of |-> ROff(0), st |-> RandomElement({"colon", "plain"})] [] c = 5 -> [of |-> 0, st |-> "Z"]
              [] c = 6 -> [nm |-> RandomElement(FixedNames)] [] c = 7 /\ Chance(40) -> [ng |-> RandomElement(1..6)]
              [] OTHER -> [nm |-> RandomElement(RuleNames)])
(* a time near a change of the clocks *)
RChange(w) == Pick(2008..2036, LAMBDA y : LET r == Rule(w.nm, y) IN Pick({r.b, r.e}, LAMBDA p : Pick(-130..190, LAMBDA m :
                LET t == p[2] + m  c == Civil(p[1] + t \div 1440) IN [y |-> c[1], mo |-> c[2], d |-> c[3], h |-> (t % 1440) \div 60, mi |-> t % 60, s |-> RSec(0) % 60, f |-> 0, o |-> 0])))
Ruled(c, w) == Has(w, "nm") => (w.nm \in RuleNames => c.y \in 2008..2036) /\ (w.nm \notin RuleNames => c.y >= 1990 /\ c.y < 2037)

----------------------------------------------------------------------------
Push(p, v) == regs' = Append(regs, TLCEval(v)) /\ prog' = Append(prog, p)
R(i) == [r |-> i]
Where(Q(_)) == {i \in 1..Len(regs) : Q(regs[i])}
Ds == Where(IsD)
(* a literal says what is wrong with it when read, so it must be right *)
LitForms == Forms \ {"basic", "basicm", "basicd", "lower"}
RLit(z) == Pick(Forms, LAMBDA m : Pick({0, 0, 1, 2, 3, 6, 9}, LAMBDA k : Pick({RC(0)}, LAMBDA c : [c |-> c, m |-> m, k |-> k])))
OkLit(q) == LET v == Meaning(q.c, q.m, q.k) IN
  [o |-> "lit", a |-> <<[tx |-> Text(q.c, q.m, q.k)]>>]
Fresh == \E q \in {RLit(0)} : LET v == Meaning(q.c, q.m, q.k) IN
  IF q.m \in LitForms /\ ~IsBad(v) /\ ~(q.m = "space" /\ q.k > 0) THEN Push(OkLit(q), v) ELSE Push([o |-> "parse", a |-> <<[tx |-> Text(q.c, q.m, q.k)]>>], v)
Defaulted(c, g) == [y |-> IF "y" \in g THEN c.y ELSE 1, mo |-> IF "mo" \in g THEN c.mo ELSE 1, d |-> IF "d" \in g THEN c.d ELSE 1,
                    h |-> IF "h" \in g THEN c.h ELSE 0, mi |-> IF "mi" \in g THEN c.mi ELSE 0, s |-> IF "s" \in g THEN c.s ELSE 0]
Milli(f) == f - (f % 1000000)
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> THEN <<x>> ELSE IF Cmp(Instant(x.z), Instant(q[1].z)) < 0 THEN <<x>> \o q ELSE <<q[1]>> \o Insert(Tail(q), x)
Step(o) ==
  CASE o = "zdt" -> \E w \in {RZone(0)} : \E c \in {IF Has(w, "nm") /\ w.nm \in RuleNames /\ Chance(70) THEN RChange(w) ELSE RC(0)} :
         LET f == Milli(c.f) IN
         IF ~Ruled(c, w) THEN Fresh ELSE Push([o |-> o, a |-> <<[c |-> [c EXCEPT !.f = f], w |-> w]>>], Zdt(c.y, c.mo, c.d, c.h, c.mi, c.s, f, w))
    [] o = "datetime" -> \E w \in {RZone(0)} : \E c \in {RC(0)} : \E g \in {RandomElement(SUBSET {"y", "mo", "d", "h", "mi", "s", "w"})} :
         LET e == Defaulted(c, g)  f == IF "s" \in g THEN Milli(c.f) ELSE 0  v == IF "w" \in g THEN w ELSE [of |-> 0, st |-> "Z"] IN
         IF ~Ruled(e, v) THEN Fresh ELSE Push([o |-> o, a |-> <<[c |-> [c EXCEPT !.f = f], w |-> w, g |-> g]>>], Zdt(e.y, e.mo, e.d, e.h, e.mi, e.s, f, v))
    [] o = "again" -> IF Ds = {} THEN Fresh ELSE \E i \in {RandomElement(Ds)} :            \* its fields, one of them changed
         LET z == regs[i].z IN \E h \in {RandomElement({"y", "mo", "d", "h", "mi", "none"})} : \E c \in {RC(0)} :
         LET n == IF h = "none" THEN z ELSE [z EXCEPT ![h] = c[h]] IN
         Push([o |-> o, a |-> <<R(i), [h |-> h, n |-> IF h = "none" THEN 0 ELSE c[h]]>>], Zdt(n.y, n.mo, n.d, n.h, n.mi, n.s, Milli(n.f), [of |-> z.o, st |-> "plain"]))
    [] o = "epoch" -> \E n \in {RandomElement({0, -1, 1, 59, 11016, 11017, 19782, 19783, -719162, 2932896, 24855, -25509, -25508, 24836} \cup -20000..20000)} : \E s \in {RandomElement({0, 1, 43200, 86399})} :
         Push([o |-> o, a |-> <<[dy |-> n, sc |-> s]>>], Fields(FromInstant(<<n, s, 0>>, 0).z))
    [] o \in {"fields", "format", "str", "round"} -> IF Ds = {} THEN Fresh ELSE \E i \in {RandomElement(Ds)} :
         LET z == regs[i].z IN
         Push([o |-> o, a |-> <<R(i)>>], CASE o = "fields" -> Fields(z) [] o = "format" -> S(Format(z)) [] o = "str" -> S(Shown(z)) [] OTHER -> regs[i])
    [] o \in {"eq", "ne", "lt", "le", "gt", "ge"} -> IF Ds = {} THEN Fresh ELSE \E i \in {RandomElement(Ds)} : \E j \in {RandomElement(Ds)} :
         LET c == Cmp(Instant(regs[i].z), Instant(regs[j].z)) IN
         Push([o |-> o, a |-> <<R(i), R(j)>>], T(CASE o = "eq" -> c = 0 [] o = "ne" -> c /= 0 [] o = "lt" -> c < 0 [] o = "le" -> c <= 0 [] o = "gt" -> c > 0 [] OTHER -> c >= 0))
    [] o = "shift" -> IF Ds = {} THEN Fresh ELSE \E i \in {RandomElement(Ds)} : \E w \in {ROff(0)} : \E e \in {RandomElement({0, 0, 1, -1})} :   \* the same instant (or a second off) elsewhere
         LET q == Instant(regs[i].z)  u == FromInstant(<<q[1] + (q[2] + e) \div 86400, (q[2] + e) % 86400, q[3]>>, w).z IN
         IF u.y \notin 1..9998 THEN Fresh ELSE Push([o |-> "parse", a |-> <<[tx |-> Text(u, "rfc", 9)]>>], [z |-> u])
    [] o = "sort" -> IF Cardinality(Ds) < 3 THEN Fresh ELSE \E i \in {RandomElement(Ds)} : \E j \in {RandomElement(Ds)} : \E k \in {RandomElement(Ds)} :
         Push([o |-> o, a |-> <<R(i), R(j), R(k)>>], L(Insert(Insert(<<regs[i]>>, regs[j]), regs[k])))
    [] o = "nonsense" -> \E t \in {RC(0)} : \E n \in {RandomElement(1..8)} : Push([o |-> "parse", a |-> <<[bt |-> n, tx |-> Text([t EXCEPT !.mo = 3, !.d = 4, !.h = 5, !.mi = 6, !.s = 7], "rfc", 3)]>>], Bad)
Init == regs = <<>> /\ prog = <<>>
Next == Len(regs) < Steps /\ IF Len(regs) < 2 THEN Fresh ELSE \E o \in {RandomElement(Ops)} : Step(o)
Spec == Init /\ [][Next]_vars

(* the calendar: days and dates name each other, years have the right lengths, *)
(* instants are kept by a change of offset, and order agrees with the fields    *)
Laws == \A i \in Ds : LET z == regs[i].z IN
          /\ Civil(Days(z.y, z.mo, z.d)) = <<z.y, z.mo, z.d>>
          /\ Before(z.y + 1) - Before(z.y) = YearDays(z.y)
          /\ Days(z.y, z.mo, z.d) < Days(z.y + 400, z.mo, z.d) /\ Days(z.y + 400, z.mo, z.d) - Days(z.y, z.mo, z.d) = 146097
          /\ FromInstant(Instant(z), z.o) = regs[i]
          /\ \A o \in {0, 345, -720} : Instant(FromInstant(Instant(z), o).z) = Instant(z)
          /\ Meaning(z, "rfc", 9) = regs[i] \/ z.y \notin 0..9999
Out(v) == IF IsD(v) THEN [zs |-> Shown(v.z)] ELSE IF IsL(v) THEN [l |-> [k \in 1..Len(v.l) |-> [zs |-> Shown(v.l[k].z)]]] ELSE v
Emit == Len(regs) = Steps => PrintT("@@" \o ToJson([p |-> prog, v |-> [i \in 1..Len(regs) |-> Out(regs[i])], c |-> [i \in 1..Len(regs) |-> ~IsBad(regs[i])]]))
=============================================================================
