P = dict(
 id="P23",
 title="Datetimes follow the civil calendar, zones and the order of instants",
 statement="A datetime made from components, a literal, or parsed text exists exactly when the date is one of the Gregorian calendar, the time of day exists and the zone is known; otherwise it is an error and never another date. It keeps its local fields, its fraction of a second and its offset: formatting gives that time in ISO 8601 with that offset, reading formatted text gives the same datetime, taking its fields and making a datetime of them gives it back to the millisecond, and missing components take the documented defaults. Text without an offset is UTC. A named zone gives the offset in force at that date and time, the earlier where the clock repeats a time, and an error where it skips it. Times since the epoch give the fields of that instant. Equality and order are those of the instants whatever the offsets, to the nanosecond, and sorting follows them.",
 quantifier=dict(over=["inputs"], text="all dates from year 1 to 9999 including leap days and ends of months, all times, fractions, offsets and zones, valid or not, all documented ways to write them"),
 why_tests_cant="Tests read and write a handful of dates; leap rules, fractions, negative and half-hour offsets, changes of the clocks and instants equal across offsets each need their own input.",
 anchors=dict(files=["src/eval/stg/time.rs", "src/syntax/rowan/lex.rs", "src/eval/stg/arith.rs", "src/eval/stg/eq.rs", "lib/prelude.eu"],
  state=[dict(name="Native::Zdt", meaning="a datetime with a fixed offset", where="src/eval/memory/syntax.rs")],
  mechanism=[dict(name="ZDT, ZDT.PARSE, ZDT.FORMAT, ZDT.FIELDS, ZDT.FROM_EPOCH", where="src/eval/stg/time.rs"), dict(name="parse_zdt_literal", where="src/syntax/rowan/lex.rs")],
  observe_at=["rendered value of every register of a history, or the reported error"], hook_needed=None),
 technique="TLA+ spec of the calendar, zone rules and texts (Cal.tla, with calendar laws checked in TLC); TLC generates histories, near the edges of months, years and clock changes, replayed against the evaluator",
 note="Ten zones, four of them with changing clocks in the years 2008 to 2036; ten forms of text; leap seconds left out.",
)
