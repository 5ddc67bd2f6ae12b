BUGS = [
 dict(id="toml-inst-utc", property="P15",
  edits=[("src/export/toml.rs", "let rfc3339 = dt.to_rfc3339();", "let rfc3339 = dt.naive_local().and_utc().to_rfc3339();")],
  needs="a datetime with an offset other than zero, rendered as TOML", breaks="the offset is lost, so the document holds another instant",
  progs=[("prelude=1 format=toml eval=main", "main: {a: t\"2020-01-02T03:04:05+02:00\", b: t\"2020-01-02T03:04:05Z\"}\n", "a = 2020-01-02T03:04:05+02:00\nb = 2020-01-02T03:04:05+00:00\n\n")]),
 dict(id="json-whole-floats", property="P15",
  edits=[("src/export/json.rs", "            Primitive::Num(n) => serde_json::Value::Number(n.clone()),", "            Primitive::Num(n) => match n.as_f64() {\n                // a whole number needs no point\n                Some(f) if n.is_f64() && f.fract() == 0.0 => {\n                    serde_json::Value::Number((f as i64).into())\n                }\n                _ => serde_json::Value::Number(n.clone()),\n            },")],
  needs="a whole float beyond 64 bits rendered as JSON", breaks="the number is written as the largest 64-bit integer",
  progs=[("prelude=1 format=json eval=main", "main: {a: 100000000000000000000.0, b: 1.5}\n", "{\n  \"a\": 1e+20,\n  \"b\": 1.5\n}\n")]),
 dict(id="html-adjacent-texts", property="P15",
  edits=[("src/export/markup.rs", "            Expectation::OpenElement(e) => e.content.push(Item::Content(value)),", "            Expectation::OpenElement(e) => {\n                if e.content.last() != Some(&Item::Content(value.clone())) {\n                    e.content.push(Item::Content(value))\n                }\n            }")],
  needs="an element with two equal texts next to each other", breaks="the second of two equal neighbouring texts is lost",
  progs=[("prelude=1 format=html eval=main", "main: [:p, {}, \"ab\", \"ab\", [:b, {}, \"c\"], \"ab\"]\n", "<!DOCTYPE html><p>abab<b>c</b>ab</p>\n")]),
 dict(id="suppress-second-key", property="P15",
  edits=[("src/eval/stg/render.rs", "value(demeta(local(3), Suppresses.global(lref(0)), f())),\n                        value(Not.global(lref(1))),\n                    ],\n                    And.global(lref(0), lref(2)),", "value(demeta(local(3), Suppresses.global(lref(0)), f())),\n                        value(Not.global(lref(1))),\n                    ],\n                    And.global(lref(2), lref(0)),")],
  needs="", breaks="", progs=[]),
]
BUGS = BUGS[:3]
