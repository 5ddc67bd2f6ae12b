BUGS = [
 dict(id="split-last-empty", property="P22",
  edits=[("src/eval/stg/string.rs", """            let v: Vec<String> = re.split(&string).map(|it| it.to_string()).collect();
""", """            let mut v: Vec<String> = re.split(&string).map(|it| it.to_string()).collect();
            if v.len() > 2 && v.last().is_some_and(|it| it.is_empty()) {
                v.pop();
            }
""")],
  needs="a string with two separators or more that ends with one", breaks="the empty last piece of a split is lost, so joining does not give the string back",
  progs=[("prelude=1 format=eu eval=main", "main: [\"a,b,\" str.split-on(\",\"), \"a,b\" str.split-on(\",\")]\n", "[[\"a\", \"b\", \"\"], [\"a\", \"b\"]]\n")]),
 dict(id="left-plus", property="P22",
  edits=[("src/eval/stg/printf.rs", """            write_flags!("<+")""", """            write_flags!("<")""")],
  needs="a format with both - and + flags and a positive number", breaks="the sign asked for is not written when left aligned",
  progs=[("prelude=1 format=eu eval=main", "main: [5 str.fmt(\"%-+4d\") , str.fmt(5, \"%-+4d\"), str.fmt(5, \"%+4d\")] tail\n", "[\"+5  \", \"  +5\"]\n")]),
 dict(id="trim-ascii", property="P22",
  edits=[("src/eval/stg/string.rs", "string.trim().to_string()", "string.trim_ascii().to_string()")],
  needs="a string with space other than ASCII at an end", breaks="trim leaves non-breaking and other Unicode spaces",
  progs=[("prelude=1 format=eu eval=main", "main: [c\"\\u00a0 a \\u3000\" str.trim, \" b \" str.trim]\n", "[\"a\", \"b\"]\n")]),
 dict(id="epoch-before", property="P23",
  edits=[("src/eval/stg/time.rs", "        if let Some(ts) = unix.as_i64() {", "        if let Some(ts) = unix.as_u64().and_then(|n| i64::try_from(n).ok()) {")],
  needs="a time before 1970", breaks="epoch times below zero are refused",
  progs=[("prelude=1 format=eu eval=main", "main: [((-1) cal.ifields).y, (0 cal.ifields).y]\n", "[1969, 1970]\n")]),
 dict(id="fields-utc-day", property="P23",
  edits=[("src/eval/stg/time.rs", "        let d = dt.day();", "        let d = dt.naive_utc().day();")],
  needs="a datetime whose day in its own offset is not the day in universal time", breaks="the day among the fields is that of UTC, the other fields are local",
  progs=[("prelude=1 format=eu eval=main", "main: [cal.fields(t\"2024-03-15T23:30:00-05:00\").d, cal.fields(t\"2024-03-15T12:30:00-05:00\").d]\n", "[15, 15]\n")]),
 dict(id="literal-behind-utc", property="P23",
  edits=[("src/syntax/rowan/lex.rs", "        if !after_t.ends_with('Z') && !after_t.contains('+') && !after_t.contains('-') {\n            return format!(\"{normalized}Z\");", "        if !after_t.ends_with('Z') && !after_t.contains('+') {\n            return format!(\"{}Z\", normalized.split_at(t_pos).0.to_string() + after_t.split('-').next().unwrap_or(after_t));")],
  needs="a literal with an offset behind UTC", breaks="negative offsets of literals are dropped and the time taken as UTC",
  progs=[("prelude=1 format=eu eval=main", "main: [cal.format(t\"2024-03-15T23:30:00-05:00\"), cal.format(t\"2024-03-15T23:30:00+05:00\")]\n", "[\"2024-03-15T23:30:00-05:00\", \"2024-03-15T23:30:00+05:00\"]\n")]),
]
